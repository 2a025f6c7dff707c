package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	phpserialize "github.com/trim21/go-phpserialize"
)

// libPanic is the error reported when the library panicked.
type libPanic struct {
	val   any
	stack string
}

func (p *libPanic) Error() string { return fmt.Sprintf("PANIC: %v", p.val) }

// userPanic is thrown by test types that panic on purpose, it is not the library's fault.
type userPanic struct{ msg string }

func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *Failure, Discard, userPanic:
				panic(r)
			}
			err = &libPanic{r, trimStack(string(debug.Stack()))}
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-phpserialize") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// marshal calls the library, a panic is returned as *libPanic.
func marshal(v any) (b []byte, err error) {
	if p := guard(func() { b, err = phpserialize.Marshal(v) }); p != nil {
		return nil, p
	}
	return
}

func unmarshal(data []byte, v any) (err error) {
	if p := guard(func() { err = phpserialize.Unmarshal(data, v) }); p != nil {
		return p
	}
	return
}

func isPanic(err error) bool { _, ok := err.(*libPanic); return ok }

// mustNotPanic fails the case when err is a panic of the library.
func mustNotPanic(t *T, what string, err error) {
	if p, ok := err.(*libPanic); ok {
		t.Failf("%s panicked: %v [%s]", what, p.val, p.stack)
	}
}
