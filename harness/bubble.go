package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
)

// Virtual time: a case may run code in a bubble, in which time only advances while every
// goroutine of the bubble is blocked.

var bubbleT *testing.T

// withBubbles runs f where bubble may be used; it does not return.
func withBubbles(f func()) {
	testing.Main(func(a, b string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubbles", F: func(t *testing.T) {
		bubbleT = t
		f()
		os.Exit(0)
	}}}, nil, nil)
	os.Exit(3)
}

// bubble runs f in virtual time. f must end every goroutine it starts.
func (c *Case) bubble(f func()) {
	var p any
	var st string
	synctest.Test(bubbleT, func(*testing.T) {
		defer func() {
			if p = recover(); p != nil {
				st = string(debug.Stack())
			}
		}()
		f()
	})
	if p == nil {
		return
	}
	if cf, ok := p.(caseFailure); ok {
		panic(cf)
	}
	if i := strings.Index(st, "\npanic("); i >= 0 {
		st = st[i+1:]
	}
	where := "the harness, on a value obtained from the library"
	if l := libFrame(st); l != "" {
		where = l
	}
	panic(caseFailure{text: fmt.Sprintf("panic: %v in %s", p, where), detail: clip(st, 4000)})
}
