package stackp

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"testing"

	"github.com/gocraft/health/stack"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Case is a call chain and how to look at it.
type Case struct {
	Steps  []int `json:"steps"`
	Skip   int   `json:"skip"`
	Max    int   `json:"max"`
	Bottom int   `json:"bottom"`
	Twice  int   `json:"twice,omitempty"` // 1: ask for the frames first, 2: print first
}

func split(fn string) (pkg, name string) {
	i := strings.LastIndex(fn, "/") + 1
	k := strings.Index(fn[i:], ".")
	if k < 0 {
		return fn[:i], fn[i:]
	}
	return fn[:i+k], fn[i+k+1:]
}

func unescape(s string) string { return strings.ReplaceAll(s, "%2e", ".") }

func (c Case) run() error {
	old := stack.MaxStackDepth
	defer func() { stack.MaxStackDepth = old }()
	if c.Max >= 0 {
		stack.MaxStackDepth = c.Max
	}
	ch := &chain{steps: c.Steps, skip: c.Skip, bottom: c.Bottom}
	ch.next()
	max := stack.MaxStackDepth
	stack.MaxStackDepth = 3 // must not matter any more
	want := ch.want
	if c.Skip < len(want) {
		want = want[c.Skip:]
	} else {
		want = nil
	}
	if len(want) > max {
		want = want[:max]
	}
	var printed []byte
	if c.Twice == 2 {
		printed = ch.tr.Stack()
	}
	got := append([]stack.Frame(nil), ch.tr.Frames()...)
	if c.Twice != 2 {
		printed = ch.tr.Stack()
	}
	var e core.Errs
	if len(got) != len(want) {
		e.Addf("%d frames, want %d", len(got), len(want))
	}
	var lines bytes.Buffer
	for i, w := range want {
		if i >= len(got) {
			e.Addf("frame %d is missing: %s:%d %s", i, w.file, w.line, w.fn)
			break
		}
		g := got[i]
		pkg, name := split(w.fn)
		if g.File != w.file || g.LineNumber != w.line || (g.Package != pkg && g.Package != unescape(pkg)) || g.Name != name {
			e.Addf("frame %d is %s:%d %q %q, want %s:%d %q %q", i, g.File, g.LineNumber, g.Package, g.Name, w.file, w.line, pkg, name)
			break
		}
		if sys := strings.HasPrefix(w.file, runtime.GOROOT()+"/"); g.IsSystemPackage != sys {
			e.Addf("frame %d (%s): system package: %v, want %v", i, w.file, g.IsSystemPackage, sys)
		}
		if s := g.String(); s != fmt.Sprintf("%s:%d %s", w.file, w.line, name) {
			e.Addf("frame %d is printed as %q", i, s)
		}
		fmt.Fprintf(&lines, "%s:%d %s\n", w.file, w.line, name)
	}
	if e.Err() == nil && !bytes.Equal(lines.Bytes(), printed) {
		e.Addf("printed trace is\n%s\nwant\n%s", printed, lines.Bytes())
	}
	again := ch.tr.Frames()
	if len(again) != len(got) {
		e.Addf("asked again, it has %d frames instead of %d", len(again), len(got))
	} else {
		for i := range got {
			if again[i] != got[i] {
				e.Addf("asked again, frame %d is %+v instead of %+v", i, again[i], got[i])
				break
			}
		}
	}
	if !bytes.Equal(ch.tr.Stack(), printed) {
		e.Addf("printed again, the trace differs")
	}
	return e.Err()
}

func TestC22_trace(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Gen: func(t *rapid.T) Case {
			c := Case{Max: -1, Bottom: core.Uniform(t, "bottom", bottoms), Twice: core.Uniform(t, "twice", 3)}
			n := core.Uniform(t, "n", 13)
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, core.Uniform(t, "step", kinds))
			}
			if core.Chance(t, "skips", 1, 2) {
				c.Skip = core.Uniform(t, "skip", 12)
				if core.Chance(t, "far", 1, 8) {
					c.Skip = core.Uniform(t, "skipFar", 300)
				}
			}
			if core.Chance(t, "depth", 1, 3) {
				c.Max = core.Pick(t, "max", 0, 1, 2, 3, 5, 10, 32, 49, 51, 64, 100, 1000)
			}
			return c
		},
		Run: Case.run,
		Classify: func(c Case) (bool, []string) {
			var l []string
			seen := map[int]bool{}
			for _, s := range c.Steps {
				if !seen[s] {
					seen[s] = true
					l = append(l, fmt.Sprintf("call-kind-%02d", s))
				}
			}
			if c.Skip > 0 {
				l = append(l, "skip")
			}
			return len(c.Steps) > 0, l
		},
	})
}

// Frame is a call chain (without inlining) whose frames are made one by one.
type Frame struct {
	Case
	Bad uint64 `json:"bad"` // a program counter of no function
}

func (c Frame) run() error {
	ch := &chain{steps: c.Steps, bottom: c.Bottom}
	ch.next()
	for i, f := range ch.tr.Frames() {
		g := stack.NewFrame(f.ProgramCounter)
		if g != f {
			return fmt.Errorf("the frame of program counter %#x (number %d of a trace) is %+v, want %+v", f.ProgramCounter, i, g, f)
		}
		fn := g.Func()
		if fn == nil || fn != runtime.FuncForPC(f.ProgramCounter) {
			return fmt.Errorf("frame %d of a trace (%s) has the function %v", i, g.String(), fn)
		}
		if pkg, name := split(fn.Name()); pkg != f.Package || name != f.Name {
			return fmt.Errorf("frame %d of a trace (%s) has the function %s", i, g.String(), fn.Name())
		}
	}
	bad := uintptr(c.Bad)
	if runtime.FuncForPC(bad) != nil {
		return nil
	}
	if g := stack.NewFrame(bad); g != (stack.Frame{ProgramCounter: bad}) || g.Func() != nil {
		return fmt.Errorf("the frame of no function, %#x, is %+v", bad, g)
	}
	return nil
}

func TestC22_frame(t *testing.T) {
	core.Check(t, core.Sub[Frame]{
		Gen: func(t *rapid.T) (c Frame) {
			c.Bottom = core.Uniform(t, "bottom", bottoms)
			for n := core.Uniform(t, "n", 13); n > 0; n-- {
				c.Steps = append(c.Steps, core.Uniform(t, "step", kinds))
			}
			c.Bad = core.Pick(t, "bad", 0, 1, 2, 100, 0xffff, 1<<63, 1<<64-1, rapid.Uint64().Draw(t, "any"))
			return
		},
		Run:      Frame.run,
		Classify: func(c Frame) (bool, []string) { return len(c.Steps) > 0, nil },
	})
}
