package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/coverage"
	"sort"
	"time"
)

// Coverage-guided search over the choice sequences of an arm: the binary is built with -cover, a
// case that reaches a new block of the library, or an old one a new order of magnitude of times,
// is kept, and the kept sequences are mutated and spliced. A failure is a choice sequence like any
// other and is shrunk and saved in the same way.

type covMap struct {
	seen map[uint64]struct{}
	ours map[uint64]bool // packages of the harness
	buf  bytes.Buffer
}

// ticks calls f with an identity of every block that ran since the last call and how often it ran.
func (c *covMap) ticks(f func(pkg, id, n uint64)) {
	c.buf.Reset()
	if err := coverage.WriteCounters(&c.buf); err != nil {
		die(err)
	}
	die(coverage.ClearCounters())
	b := c.buf.Bytes()
	if len(b) < 48 || !bytes.Equal(b[:4], []byte("\x00cwm")) {
		die(fmt.Errorf("coverage data in an unknown format"))
	}
	raw := b[24] == 1
	b = b[32:]
	funcs := binary.LittleEndian.Uint64(b)
	skip := 16 + binary.LittleEndian.Uint32(b[8:]) + binary.LittleEndian.Uint32(b[12:])
	b = b[skip:]
	next := func() uint64 {
		if raw {
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return uint64(v)
		}
		v, n := binary.Uvarint(b)
		b = b[n:]
		return v
	}
	for range funcs {
		n, pkg, fn := next(), next(), next()
		for i := range n {
			if v := next(); v != 0 {
				f(pkg, mix(pkg, fn, i), v)
			}
		}
	}
}

func newCovMap() *covMap {
	c := &covMap{seen: map[uint64]struct{}{}, ours: map[uint64]bool{}}
	die(coverage.ClearCounters())
	structOf(field("A", typeOf[int](), "")) // something of the harness
	c.ticks(func(pkg, _, _ uint64) { c.ours[pkg] = true })
	return c
}

// fresh reports whether the last case reached something new.
func (c *covMap) fresh() (news int) {
	c.ticks(func(pkg, id, n uint64) {
		if c.ours[pkg] {
			return
		}
		class := uint64(0)
		switch {
		case n <= 3:
			class = n
		case n <= 7:
			class = 4
		case n <= 15:
			class = 5
		case n <= 31:
			class = 6
		case n <= 127:
			class = 7
		default:
			class = 8
		}
		k := mix(id, class)
		if _, ok := c.seen[k]; !ok {
			c.seen[k] = struct{}{}
			news++
		}
	})
	return news
}

// mutate changes a choice sequence; what it no longer fits is taken modulo.
func mutate(r *T, a, other []uint64) []uint64 {
	c := append([]uint64(nil), a...)
	for n := 1 << r.Int(0, 4); n > 0; n-- {
		if len(c) == 0 {
			return append(c, r.U64(^uint64(0)))
		}
		i := r.N(len(c))
		switch r.N(9) {
		case 0:
			c[i] = r.U64(^uint64(0))
		case 1:
			c[i] = r.U64(15)
		case 2:
			c[i]++
		case 3:
			c[i]--
		case 4:
			c[i] = c[r.N(len(c))]
		case 5:
			j := min(len(c), i+r.Int(1, 6))
			c = append(c[:i:i], c[j:]...)
		case 6:
			var ins []uint64
			for range r.Int(1, 4) {
				ins = append(ins, r.U64(^uint64(0)))
			}
			c = append(c[:i:i], append(ins, c[i:]...)...)
		case 7: // a piece once more
			j := min(len(c), i+r.Int(1, 12))
			piece := append([]uint64(nil), c[i:j]...)
			k := r.N(len(c))
			c = append(c[:k:k], append(piece, c[k:]...)...)
		default: // a piece of another case
			if len(other) > 0 {
				j := r.N(len(other))
				k := min(len(other), j+r.Int(1, 30))
				c = append(c[:i:i], append(append([]uint64(nil), other[j:k]...), c[min(len(c), i+k-j):]...)...)
			}
		}
	}
	return c
}

func guideMain(p *Property, tier string, seed uint64, shard, shards int, dir string) {
	setLimits(p.Race)
	go watchdog()
	loadDict(dir)
	j := openJournal(filepath.Join(dir, fmt.Sprintf("journal-%d", shard)))
	res := &shardResult{Labels: map[string]int{}, ArmEvals: map[string]int{}}
	keys := map[uint64]struct{}{}
	write := func() {
		for k := range keys {
			res.Keys = append(res.Keys, k)
		}
		sort.Slice(res.Keys, func(i, j int) bool { return res.Keys[i] < res.Keys[j] })
		b, err := json.Marshal(res)
		die(err)
		die(os.WriteFile(filepath.Join(dir, fmt.Sprintf("shard-%d.json", shard)), b, 0o644))
	}
	for ai, a := range p.Arms {
		n := share(a.Quick, shard%shards, shards)
		if tier == "thorough" {
			n *= 3
		}
		cov := newCovMap()
		r := newRandomT(mix(seed, hashStr(p.ID), hashStr(a.Name), uint64(shard), 99), nil)
		var corpus [][]uint64
		for i := 0; i < n; i++ {
			r.rec = r.rec[:0]
			j.mem[0], j.mem[1] = uint64(ai), uint64(i)
			t := newRandomT(r.U64(^uint64(0)), j)
			if len(corpus) > 0 && r.Chance(4, 5) {
				k := r.N(len(corpus))
				if r.Bool() { // the later ones more often
					k = max(k, r.N(len(corpus)))
				}
				t.in = mutate(r, corpus[k], pick(r, corpus))
				t.replay, t.tail = true, true
			}
			currentCase.Store(time.Now().UnixNano())
			o := runCase(a.Run, t)
			currentCase.Store(0)
			if cov.fresh() > 0 && len(o.choices) < 20000 {
				corpus = append(corpus, append([]uint64(nil), o.choices...))
			}
			if o.discard {
				continue
			}
			res.Evals++
			res.ArmEvals["guided "+a.Name]++
			if t.nontriv {
				keys[mix(t.key, hashStr(a.Name))] = struct{}{}
			}
			if o.fail != nil {
				res.Failure = &failureRec{Arm: a.Name, Index: i, Msg: o.fail.Msg, Desc: describe(t), Choices: o.choices, Original: o.choices}
				write()
				res.Keys = nil
				end := time.Now().Add(20 * time.Second)
				min := shrink(o.choices, 4000, func(c []uint64) (bool, []uint64) {
					if time.Now().After(end) {
						return false, nil
					}
					currentCase.Store(time.Now().UnixNano())
					r := runCase(a.Run, newReplayT(c, j))
					currentCase.Store(0)
					return r.fail != nil, r.choices
				})
				if r := runCase(a.Run, newReplayT(min, nil)); r.fail != nil {
					res.Failure.Choices, res.Failure.Msg, res.Failure.Desc = min, r.fail.Msg, describe(r.t)
				}
				write()
				os.Exit(exitFailure)
			}
		}
		res.Labels["guided "+a.Name+"/kept sequences"] = len(corpus)
		res.Labels["guided "+a.Name+"/blocks and counts reached"] = len(cov.seen)
	}
	write()
}
