// Package stackp checks stack traces: at the end of generated call chains, a trace is taken on the same line as the
// runtime's own, and compared.
package stackp

import (
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/gocraft/health/stack"

	dotted "verif/harness/stackp/dot.ted"
	"verif/harness/symb"
)

type frame struct {
	file, fn string
	line     int
}

type chain struct {
	steps  []int
	i      int
	skip   int
	bottom int
	tr     *stack.Trace
	want   []frame
}

const kinds = 27
const bottoms = 7

// callers is the stack from its caller's caller on... of the function that calls it.
//
//go:noinline
func callers() []frame {
	pcs := make([]uintptr, 4096)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	var out []frame
	for {
		f, more := fs.Next()
		if f.PC != 0 {
			out = append(out, frame{f.File, f.Function, f.Line})
		}
		if !more {
			return out
		}
	}
}

func (c *chain) end() {
	switch c.bottom {
	case 0:
		c.tr, c.want = stack.NewTrace(c.skip), callers()
	case 1:
		func() { c.tr, c.want = stack.NewTrace(c.skip), callers() }()
	case 2:
		bottomInlined(c)
	case 3:
		defer func() { c.tr, c.want = stack.NewTrace(c.skip), callers() }()
	case 4:
		bottomGeneric(c, 1)
	case 5:
		(bottomT{c}).take()
	default:
		var i interface{ take() } = &bottomP{c}
		i.take()
	}
}

func bottomInlined(c *chain) { c.tr, c.want = stack.NewTrace(c.skip), callers() }

func bottomGeneric[A any](c *chain, _ A) { c.tr, c.want = stack.NewTrace(c.skip), callers() }

type bottomT struct{ c *chain }

func (b bottomT) take() { b.c.tr, b.c.want = stack.NewTrace(b.c.skip), callers() }

type bottomP struct{ c *chain }

//go:noinline
func (b *bottomP) take() { b.c.tr, b.c.want = stack.NewTrace(b.c.skip), callers() }

type method struct{ c *chain }

func (m method) val()  { m.c.next() }
func (m *method) ptr() { m.c.next() }

type box[A any] struct {
	c *chain
	a A
}

func (b box[A]) call() { b.c.next() }

func (b *box[A]) callPtr() {
	b.c.next()
}

func inlined1(c *chain) { c.next() }
func inlined2(c *chain) { inlined1(c) }
func inlined3(c *chain) {
	inlined2(c)
}

//go:noinline
func plain(c *chain) {
	c.next()
}

//go:noinline
func generic[A any](c *chain, a A) { c.next() }

func genericInl[A, B any](c *chain, a A, b B) { c.next() }

//go:noinline
func recurse(c *chain, n int) {
	if n == 0 {
		c.next()
		return
	}
	recurse(c, n-1)
}

type embedder struct{ method }

func (c *chain) next() {
	if c.i >= len(c.steps) {
		c.end()
		return
	}
	k := c.steps[c.i]
	c.i++
	switch k {
	case 0:
		plain(c)
	case 1:
		inlined1(c)
	case 2:
		inlined3(c)
	case 3:
		method{c}.val()
	case 4:
		(&method{c}).ptr()
	case 5:
		var i interface{ val() } = &method{c} // through a pointer wrapper
		i.val()
	case 6:
		f := (&method{c}).ptr
		f()
	case 7:
		f := (*method).ptr
		f(&method{c})
	case 8:
		func() { c.next() }()
	case 9:
		func() {
			func() {
				c.next()
			}()
		}()
	case 10:
		generic(c, 1)
	case 11:
		genericInl(c, "", method{})
	case 12:
		box[string]{c, ""}.call()
	case 13:
		(&box[*int]{c, nil}).callPtr()
	case 14:
		recurse(c, 3)
	case 15:
		recurse(c, 60)
	case 16:
		var once sync.Once
		once.Do(func() { c.next() })
	case 17:
		done := false
		sort.Slice([]int{2, 1}, func(i, j int) bool {
			if !done {
				done = true
				c.next()
			}
			return i < j
		})
	case 18:
		reflect.ValueOf(plain).Call([]reflect.Value{reflect.ValueOf(c)})
	case 19:
		func() {
			defer func() {
				recover()
				c.next()
			}()
			panic("x")
		}()
	case 20:
		func() {
			defer func() {
				recover()
				c.next()
			}()
			var p *chain
			p.i++
		}()
	case 21:
		done := make(chan bool)
		go func() {
			defer close(done)
			c.next()
		}()
		<-done
	case 22:
		done := false
		strings.Map(func(r rune) rune {
			if !done {
				done = true
				c.next()
			}
			return r
		}, "xy")
	case 23:
		switch len(c.steps) % 5 {
		case 0:
			dotted.Call(c.next)
		case 1:
			dotted.Closure(c.next)
		case 2:
			dotted.Gen(0, c.next)
		case 3:
			dotted.T{F: c.next}.Val()
		default:
			(&dotted.T{F: c.next}).Ptr()
		}
	case 24:
		embedder{method{c}}.val()
	case 25:
		lined(c)
	default:
		symb.Call(c.i*7+len(c.steps)*3+c.bottom, c.next)
	}
}
