package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Arm is one generator with its oracle.
type Arm struct {
	Name     string
	Run      func(*T)
	Quick    int // number of cases over all shards
	Thorough int
}

// Property is a listed property with the arms that decide it.
type Property struct {
	ID   string
	Rule string
	Arms []Arm
	Race bool // decided by the binary built with the race detector
	// The cases measure time: a shard that fails is run again before it counts.
	Measures bool
	// Finite enumerations, split over all shards.
	Exhaustive func(tier string, shard, shards int, tick func(int)) error
	Assume     []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

const (
	exitFailure = 10
	exitHang    = 97
	caseLimit   = 40 * time.Second
	perProcess  = 6000
)

// ---- journal: the choices of the running case survive the death of the process ----

type journal struct {
	mem []uint64 // [0] arm, [1] index, [2] count, [3:] choices
}

func openJournal(path string) *journal {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	die(err)
	size := 8 * (maxChoices + 8)
	die(f.Truncate(int64(size)))
	m, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	die(err)
	f.Close()
	return &journal{unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), size/8)}
}
func (j *journal) reset() { j.mem[2] = 0 }
func (j *journal) add(v uint64) {
	n := j.mem[2]
	if int(n)+3 < len(j.mem) {
		j.mem[n+3] = v
		j.mem[2] = n + 1
	}
}
func readJournal(path string) (arm, idx int, choices []uint64) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 24 {
		return 0, 0, nil
	}
	u := func(i int) uint64 { return binary.LittleEndian.Uint64(b[8*i:]) }
	n := int(u(2))
	for i := 0; i < n; i++ {
		choices = append(choices, u(3+i))
	}
	return int(u(0)), int(u(1)), choices
}

type failureRec struct {
	Arm      string
	Index    int
	Msg      string
	Desc     string
	Choices  []uint64
	Original []uint64
}

type shardResult struct {
	Evals    int
	Discards int
	Labels   map[string]int
	ArmEvals map[string]int
	Keys     []uint64
	Samples  []string
	Failure  *failureRec
}

type replayFile struct {
	Kind     string // case or shard
	Property string
	Arm      string   `json:",omitempty"`
	Choices  []uint64 `json:",omitempty"`
	Tier     string   `json:",omitempty"`
	Seed     uint64   `json:",omitempty"`
	Shard    int      `json:",omitempty"`
	Shards   int      `json:",omitempty"`
	Narrow   bool     `json:",omitempty"` // found by the binary for 32 bit words
	Message  string
	Case     string
	Dict     *savedDict `json:",omitempty"` // the constants that directed the search
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

func armCount(a Arm, tier string) int {
	n := a.Quick
	if tier == "thorough" {
		n = a.Thorough
		if n == 0 {
			n = a.Quick * 10
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" { // development aid
		f, err := strconv.ParseFloat(s, 64)
		die(err)
		n = int(float64(n) * f)
	}
	return n
}

// share of shard k of n cases
func share(n, k, shards int) int { return n*(k+1)/shards - n*k/shards }

func setLimits(race bool) {
	debug.SetMaxStack(384 << 20)
	if !race {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

var currentCase atomic.Int64 // start time of the running case

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		st := currentCase.Load()
		if st != 0 && time.Since(time.Unix(0, st)) > caseLimit {
			os.Exit(exitHang)
		}
	}
}

func describe(t *T) string {
	if t == nil || t.desc == nil {
		return ""
	}
	s := t.desc()
	if len(s) > 1500 {
		s = s[:1500] + fmt.Sprintf("… (%d bytes)", len(s))
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}

func childMain(p *Property, tier string, seed uint64, shard, shards int, dir string) {
	setLimits(p.Race)
	go watchdog()
	loadDict(dir)
	j := openJournal(filepath.Join(dir, fmt.Sprintf("journal-%d", shard)))
	res := &shardResult{Labels: map[string]int{}, ArmEvals: map[string]int{}}
	keys := map[uint64]struct{}{}
	write := func() {
		for k := range keys {
			res.Keys = append(res.Keys, k)
		}
		b, err := json.Marshal(res)
		die(err)
		die(os.WriteFile(filepath.Join(dir, fmt.Sprintf("shard-%d.json", shard)), b, 0o644))
	}
	if f := os.Getenv("VERIF_PROF"); f != "" && shard == 0 { // development aid
		w, err := os.Create(f)
		die(err)
		die(pprof.StartCPUProfile(w))
		defer pprof.StopCPUProfile()
	}
	for ai, a := range p.Arms {
		n := share(armCount(a, tier), shard, shards)
		for i := 0; i < n; i++ {
			j.mem[0], j.mem[1] = uint64(ai), uint64(i)
			t := newRandomT(mix(seed, hashStr(p.ID), hashStr(a.Name), uint64(shard), uint64(i)), j)
			currentCase.Store(time.Now().UnixNano())
			o := runCase(a.Run, t)
			currentCase.Store(0)
			if o.discard {
				res.Discards++
				continue
			}
			res.Evals++
			res.ArmEvals[a.Name]++
			for l, c := range t.labels {
				res.Labels[a.Name+"/"+l] += c
			}
			if t.nontriv {
				keys[mix(t.key, hashStr(a.Name))] = struct{}{}
				if (len(res.Samples) < 2*(ai+1) && i >= 7) && shard < 2 {
					if s := describe(t); s != "" {
						if len(s) > 300 {
							s = s[:300] + "…"
						}
						res.Samples = append(res.Samples, a.Name+": "+strings.ToValidUTF8(s, "\uFFFD"))
					}
				}
			}
			if o.fail != nil {
				fr := &failureRec{Arm: a.Name, Index: i, Msg: o.fail.Msg, Desc: describe(t), Choices: o.choices, Original: o.choices}
				res.Failure = fr
				// keep the unshrunk failure in case shrinking kills the process
				write()
				res.Keys = nil
				end := time.Now().Add(20 * time.Second)
				min := shrink(o.choices, 4000, func(c []uint64) (bool, []uint64) {
					if time.Now().After(end) {
						return false, nil
					}
					currentCase.Store(time.Now().UnixNano())
					r := runCase(a.Run, newReplayT(c, j))
					currentCase.Store(0)
					return r.fail != nil, r.choices
				})
				r := runCase(a.Run, newReplayT(min, nil))
				if r.fail != nil {
					fr.Choices, fr.Msg, fr.Desc = min, r.fail.Msg, describe(r.t)
				}
				write()
				os.Exit(exitFailure)
			}
		}
	}
	if p.Exhaustive != nil {
		err := p.Exhaustive(tier, shard, shards, func(n int) { res.Evals += n; res.ArmEvals["exhaustive"] += n })
		if err != nil {
			res.Failure = &failureRec{Arm: "exhaustive", Msg: err.Error()}
			write()
			os.Exit(exitFailure)
		}
	}
	write()
}

// caseMain runs one saved case; exit 10 when it fails.
func caseMain(p *Property, rf *replayFile, dir string) {
	setLimits(p.Race)
	go watchdog()
	loadDict(dir)
	for _, a := range p.Arms {
		if a.Name != rf.Arm {
			continue
		}
		var j *journal
		if dir != "" {
			j = openJournal(filepath.Join(dir, "journal-case"))
		}
		currentCase.Store(time.Now().UnixNano())
		t := newReplayT(rf.Choices, j)
		o := runCase(a.Run, t)
		if o.fail != nil {
			b, _ := json.Marshal(failureRec{Arm: a.Name, Msg: o.fail.Msg, Desc: describe(t), Choices: o.choices})
			os.Stdout.Write(b)
			os.Exit(exitFailure)
		}
		return
	}
	die(fmt.Errorf("unknown arm %q of %s", rf.Arm, p.ID))
}

// crashReason classifies the death of a child: a non-empty reason blames the code under test.
func crashReason(code int, stderr string) string {
	if code == exitHang {
		return "a call did not finish within " + caseLimit.String()
	}
	if code == 66 || strings.Contains(stderr, "WARNING: DATA RACE") {
		return "data race: " + firstLib(stderr)
	}
	if !strings.Contains(stderr, "go-phpserialize") {
		return ""
	}
	if strings.HasPrefix(stderr, "panic:") || strings.Contains(stderr, "\npanic:") {
		return "" // panics of the library are recovered, this one is the harness's
	}
	for _, s := range []string{"stack overflow", "goroutine stack exceeds", "concurrent map", "SIGSEGV", "SIGBUS", "unexpected fault address",
		"out of memory", "cannot allocate memory", "checkptr", "found bad pointer", "all goroutines are asleep"} {
		if strings.Contains(stderr, s) {
			return "process died: " + s + " " + firstLib(stderr)
		}
	}
	return ""
}

func firstLib(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-phpserialize") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

type procOut struct {
	code   int
	signal string
	stdout string
	stderr string
}

func runProc(self string, race bool, kill <-chan struct{}, args ...string) procOut {
	cmd := exec.Command(self, args...)
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &limitWriter{w: &se, n: 1 << 20}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOCOVERDIR="+args[len(args)-1], "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	if race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	die(cmd.Start())
	done := make(chan struct{})
	go func() {
		select {
		case <-kill:
			_ = cmd.Process.Kill()
		case <-done:
		}
	}()
	err := cmd.Wait()
	close(done)
	o := procOut{stdout: so.String(), stderr: se.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		o.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.signal = ws.Signal().String()
		}
	} else if err != nil {
		die(err)
	}
	return o
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		l.w.Write(p[:min(k, len(p))])
	}
	return len(p), nil
}

func parentMain(p *Property, tier string, seed uint64, verif, guided, narrow string) int {
	start := time.Now()
	self, err := os.Executable()
	die(err)
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	die(err)
	defer os.RemoveAll(dir)
	words := mine(sourceDir())
	words.save(dir)

	total := 0
	for _, a := range p.Arms {
		total += armCount(a, tier)
	}
	workers := runtime.NumCPU()
	if p.Race {
		workers = max(1, workers/2)
	}
	shards := max(workers, (total+perProcess-1)/perProcess)
	all := shards // and those of the guided search
	if guided != "" && !p.Race && !p.Measures {
		all += workers
	}
	wide := all // and those of the other machine
	if narrow != "" && !p.Race && !p.Measures {
		if o := runProc(narrow, false, nil, "list"); o.code == 0 && o.signal == "" {
			all += workers
		} else {
			fmt.Println("32 bit programs do not run here")
		}
	}
	shardsOf := func(k int) int {
		if k >= wide { // a tenth of the cases
			return max(shards, 10*workers)
		}
		return shards
	}
	binary := func(k int) string {
		switch {
		case k >= wide:
			return narrow
		case k >= shards:
			return guided
		}
		return self
	}

	type crash struct {
		shard int
		out   procOut
	}
	var mu sync.Mutex
	var crashes []crash
	var failed []int
	kill := make(chan struct{})
	var once sync.Once
	next := atomic.Int64{}
	var wg sync.WaitGroup
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(next.Add(1)) - 1
				if k >= all {
					return
				}
				select {
				case <-kill:
					return
				default:
				}
				shard := func() procOut {
					if k >= wide {
						return runProc(narrow, false, kill, "child", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
							"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shardsOf(k)), "-dir", dir)
					}
					if k >= shards {
						return runProc(guided, false, kill, "guide", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
							"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(workers), "-dir", dir)
					}
					return runProc(self, p.Race, kill, "child", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
						"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards), "-dir", dir)
				}
				o := shard()
				if o.code == exitHang || p.Measures && o.code == exitFailure || o.code != exitFailure && crashReason(o.code, o.stderr) == "" && (o.code != 0 || o.signal != "") {
					// What a busy machine can cause has to happen twice.
					select {
					case <-kill:
					default:
						o = shard()
					}
				}
				if o.code == 0 && o.signal == "" {
					continue
				}
				mu.Lock()
				select {
				case <-kill: // killed because another shard failed
				default:
					if o.code == exitFailure {
						failed = append(failed, k)
					} else {
						crashes = append(crashes, crash{k, o})
					}
				}
				mu.Unlock()
				once.Do(func() { close(kill) })
			}
		}()
	}
	wg.Wait()

	agg := &shardResult{Labels: map[string]int{}, ArmEvals: map[string]int{}}
	keys := map[uint64]struct{}{}
	var fail *failureRec
	failShard := 0
	for k := range all {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard-%d.json", k)))
		if err != nil {
			continue
		}
		var r shardResult
		if json.Unmarshal(b, &r) != nil {
			continue
		}
		agg.Evals += r.Evals
		agg.Discards += r.Discards
		for l, c := range r.Labels {
			agg.Labels[l] += c
		}
		for l, c := range r.ArmEvals {
			if k >= wide {
				l = "32 bit " + l
			}
			agg.ArmEvals[l] += c
		}
		for _, x := range r.Keys {
			keys[x] = struct{}{}
		}
		agg.Samples = append(agg.Samples, r.Samples...)
		if r.Failure != nil && fail == nil {
			fail, failShard = r.Failure, k
		}
	}

	var rf *replayFile
	if fail != nil {
		rf = &replayFile{Kind: "case", Property: p.ID, Arm: fail.Arm, Choices: fail.Choices, Message: fail.Msg, Case: fail.Desc, Narrow: failShard >= wide}
		confirmed := false
		for _, c := range [][]uint64{fail.Choices, fail.Original} {
			rf.Choices = c
			if o, fr := runSaved(binary(failShard), p, rf, dir); o.code == exitFailure || crashReason(o.code, o.stderr) != "" {
				confirmed = true
				if fr != nil {
					rf.Message, rf.Case = fr.Msg, fr.Desc
				}
				break
			}
		}
		if !confirmed && failShard >= shards && failShard < wide {
			rf.Message += " (only after earlier cases of the guided search)"
		} else if !confirmed { // depends on what the process did before: replay the whole shard
			*rf = replayFile{Kind: "shard", Property: p.ID, Tier: tier, Seed: seed, Shard: failShard, Shards: shardsOf(failShard), Narrow: failShard >= wide,
				Message: fail.Msg + " (only after the earlier cases of the shard)", Case: fail.Desc}
		}
	} else if len(crashes) > 0 {
		c := crashes[0]
		reason := crashReason(c.out.code, c.out.stderr)
		if reason == "" {
			fmt.Fprintf(os.Stderr, "harness error: shard %d ended with code %d signal %q\n%s\n%s\n", c.shard, c.out.code, c.out.signal, c.out.stdout, tail(c.out.stderr))
			return 3
		}
		ai, idx, choices := readJournal(filepath.Join(dir, fmt.Sprintf("journal-%d", c.shard)))
		rf = &replayFile{Kind: "case", Property: p.ID, Arm: p.Arms[ai].Name, Choices: choices, Message: reason, Narrow: c.shard >= wide}
		hang := c.out.code == exitHang
		stillBad := func(cs []uint64) (bool, []uint64) {
			o, _ := runSaved(binary(c.shard), p, &replayFile{Kind: "case", Property: p.ID, Arm: rf.Arm, Choices: cs}, dir)
			if o.code == exitFailure || crashReason(o.code, o.stderr) != "" {
				_, _, rec := readJournal(filepath.Join(dir, "journal-case"))
				return true, rec
			}
			return false, nil
		}
		ok, _ := stillBad(choices)
		switch {
		case ok && hang:
			// confirmed in a process of its own; shrinking would cost too much per step
		case ok:
			end := time.Now().Add(60 * time.Second)
			rf.Choices = shrink(choices, 400, func(cs []uint64) (bool, []uint64) {
				if time.Now().After(end) {
					return false, nil
				}
				return stillBad(cs)
			})
		case hang:
			fmt.Fprintf(os.Stderr, "harness error: case %s/%d of shard %d was slow once, and is not when run alone\n", rf.Arm, idx, c.shard)
			return 3
		case c.shard >= shards && c.shard < wide:
			rf.Message += " (only after earlier cases of the guided search)"
		default:
			*rf = replayFile{Kind: "shard", Property: p.ID, Tier: tier, Seed: seed, Shard: c.shard, Shards: shardsOf(c.shard), Message: reason, Narrow: c.shard >= wide}
			o := runProc(binary(c.shard), p.Race, nil, "child", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(shardsOf(c.shard)), "-dir", dir)
			if !p.Race && o.code != exitFailure && crashReason(o.code, o.stderr) == "" {
				fmt.Fprintf(os.Stderr, "harness error: shard %d died (%s) and does not when run again\n%s\n", c.shard, reason, tail(c.out.stderr))
				return 3
			}
		}
		if rf.Kind == "case" {
			rf.Case = "(the case kills its process; the choices replay it) " + tailLib(c.out.stderr)
		}
	}

	writeEvidence(p, tier, seed, verif, agg, len(keys), shards, rf, time.Since(start))
	if rf != nil {
		rf.Dict = toSaved(words)
		rdir := filepath.Join(verif, "replays")
		die(os.MkdirAll(rdir, 0o755))
		b, err := json.MarshalIndent(rf, "", " ")
		die(err)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", p.ID, hashBytes(b)))
		die(os.WriteFile(path, b, 0o644))
		fmt.Printf("%s\n%s\n", rf.Message, rf.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	want := 0
	for _, a := range p.Arms {
		want += armCount(a, tier)
	}
	if got := agg.Evals + agg.Discards; got < want {
		fmt.Fprintf(os.Stderr, "harness error: %d of %d cases ran\n", got, want)
		return 3
	}
	fmt.Printf("%s %s seed %d: %d cases, %d distinct non-trivial, %d discarded, %.1fs: held\n", p.ID, tier, seed, agg.Evals, len(keys), agg.Discards, time.Since(start).Seconds())
	if os.Getenv("VERIF_LABELS") != "" {
		var ls []string
		for l, c := range agg.Labels {
			ls = append(ls, fmt.Sprintf("  %-40s %d", l, c))
		}
		sort.Strings(ls)
		fmt.Println(strings.Join(ls, "\n"))
		for _, s := range agg.Samples {
			fmt.Println("  sample:", s)
		}
	}
	return 0
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

func tailLib(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-phpserialize") && len(out) < 6 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, " | ")
}

func runSaved(self string, p *Property, rf *replayFile, dir string) (procOut, *failureRec) {
	b, err := json.Marshal(rf)
	die(err)
	f := filepath.Join(dir, "case.json")
	die(os.WriteFile(f, b, 0o644))
	o := runProc(self, p.Race, nil, "case", "-file", f, "-dir", dir)
	var fr failureRec
	if o.code == exitFailure && json.Unmarshal([]byte(o.stdout), &fr) == nil {
		return o, &fr
	}
	return o, nil
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	die(err)
	var rf replayFile
	die(json.Unmarshal(b, &rf))
	p := properties[rf.Property]
	if p == nil {
		die(fmt.Errorf("unknown property %q", rf.Property))
	}
	self, err := os.Executable()
	die(err)
	dir, err := os.MkdirTemp("", "verif-replay-")
	die(err)
	defer os.RemoveAll(dir)
	if rf.Dict != nil {
		rf.Dict.dictionary().save(dir)
	}
	var o procOut
	var fr *failureRec
	if rf.Kind == "shard" {
		o = runProc(self, p.Race, nil, "child", "-prop", p.ID, "-tier", rf.Tier, "-seed", fmt.Sprint(rf.Seed),
			"-shard", fmt.Sprint(rf.Shard), "-shards", fmt.Sprint(rf.Shards), "-dir", dir)
	} else {
		o, fr = runSaved(self, p, &rf, dir)
	}
	switch {
	case o.code == 0 && o.signal == "":
		fmt.Println("the replayed case passes")
		return 0
	case o.code == exitFailure:
		if fr != nil {
			fmt.Printf("%s\n%s\n", fr.Msg, fr.Desc)
		}
	case crashReason(o.code, o.stderr) != "":
		fmt.Println(crashReason(o.code, o.stderr))
	default:
		fmt.Fprintf(os.Stderr, "harness error: code %d\n%s\n", o.code, tail(o.stderr))
		return 3
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func writeEvidence(p *Property, tier string, seed uint64, verif string, agg *shardResult, distinct, shards int, rf *replayFile, wall time.Duration) {
	type cov struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Rule        string         `json:"rule"`
		Samples     []string       `json:"samples"`
		Discarded   int            `json:"discarded"`
		Arms        map[string]int `json:"cases_per_arm"`
		Labels      map[string]int `json:"labels"`
		Processes   int            `json:"processes"`
		Explanation string         `json:"explanation,omitempty"`
	}
	samples := agg.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	v := 0
	if rf != nil {
		v = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov{agg.Evals, distinct, p.Rule, samples, agg.Discards, agg.ArmEvals, agg.Labels, shards, ""},
		"wall_s":   wall.Seconds(), "violations": v,
		"assumptions": append([]string{"the reference model in /verif/harness states the wire format and the destination rules correctly"}, p.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	die(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	die(os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644))
}

func main() {
	if len(os.Args) < 2 {
		die(fmt.Errorf("usage: harness run|child|case|replay|list"))
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	dir := fs.String("dir", "", "")
	file := fs.String("file", "", "")
	verif := fs.String("verif", "/verif", "")
	guided := fs.String("guided", "", "the binary built with -cover")
	narrow := fs.String("narrow", "", "the binary built for a machine with 32 bit words")
	die(fs.Parse(os.Args[2:]))
	switch cmd {
	case "list":
		for id, p := range properties {
			r := ""
			if p.Race {
				r = " race"
			}
			fmt.Println(id + r)
		}
		return
	case "dict": // what the baseline is made of
		d := mine(sourceDir())
		b, err := json.Marshal(toSaved(dictionary{All: d.All, Text: d.Text}))
		die(err)
		fmt.Println(string(b))
		return
	case "replay":
		os.Exit(replayMain(*file))
	case "case":
		b, err := os.ReadFile(*file)
		die(err)
		var rf replayFile
		die(json.Unmarshal(b, &rf))
		caseMain(properties[rf.Property], &rf, *dir)
		return
	}
	p := properties[*prop]
	if p == nil {
		die(fmt.Errorf("unknown property %q", *prop))
	}
	switch cmd {
	case "run":
		os.Exit(parentMain(p, *tier, *seed, *verif, *guided, *narrow))
	case "child":
		childMain(p, *tier, *seed, *shard, *shards, *dir)
	case "guide":
		guideMain(p, *tier, *seed, *shard, *shards, *dir)
	default:
		die(fmt.Errorf("unknown command %q", cmd))
	}
}
