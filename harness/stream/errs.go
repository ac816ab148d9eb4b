package stream

import (
	"errors"
	"fmt"
	"runtime"

	"github.com/gocraft/health"

	"verif/harness/core"
	"verif/harness/rec"
)

type site struct {
	fn   string
	file string
	line int
}

// mark notes where it is called, as an argument of the call under test.
func mark(at *site, err error) error {
	pc, file, line, _ := runtime.Caller(1)
	at.fn, at.file, at.line = runtime.FuncForPC(pc).Name(), file, line
	fs := runtime.CallersFrames([]uintptr{pc + 1})
	if f, _ := fs.Next(); f.Function != "" {
		at.fn = f.Function
	}
	return err
}

//go:noinline
func deep(n int, f func()) {
	if n <= 0 {
		f()
		return
	}
	deep(n-1, f)
}

type errInfo struct {
	err    error // as returned: *health.UnmutedError or *health.MutedError
	at     site
	frames string
}

// callErr emits err with one of several kinds of call sites.
func callErr(em emitter, st *health.Stream, jb *health.Job, kv bool, nSite int, name string, err error, kvs map[string]string, at *site) (ret error) {
	switch nSite {
	case 0:
		if kv {
			return em.EventErrKv(name, mark(at, err), kvs)
		}
		return em.EventErr(name, mark(at, err))
	case 1, 2:
		if jb != nil {
			if kv {
				return jb.EventErrKv(name, mark(at, err), kvs)
			}
			return jb.EventErr(name, mark(at, err))
		}
		if kv {
			return st.EventErrKv(name, mark(at, err), kvs)
		}
		return st.EventErr(name, mark(at, err))
	case 3:
		func() {
			if kv {
				ret = em.EventErrKv(name, mark(at, err), kvs)
			} else {
				ret = em.EventErr(name, mark(at, err))
			}
		}()
		return ret
	case 4:
		func() {
			defer func() {
				if kv {
					ret = em.EventErrKv(name, mark(at, err), kvs)
				} else {
					ret = em.EventErr(name, mark(at, err))
				}
			}()
		}()
		return ret
	case 5:
		done := make(chan error)
		go func() {
			if kv {
				done <- em.EventErrKv(name, mark(at, err), kvs)
			} else {
				done <- em.EventErr(name, mark(at, err))
			}
		}()
		return <-done
	case 6:
		if kv {
			f := em.EventErrKv
			return f(name, mark(at, err), kvs)
		}
		f := em.EventErr
		return f(name, mark(at, err))
	case 7:
		var er health.EventReceiver = em
		if kv {
			return er.EventErrKv(name, mark(at, err), kvs)
		}
		return er.EventErr(name, mark(at, err))
	default:
		deep(60, func() {
			if kv {
				ret = em.EventErrKv(name, mark(at, err), kvs)
			} else {
				ret = em.EventErr(name, mark(at, err))
			}
		})
		return ret
	}
}

func (p Prog) emitErr(w *world, i int, op Op, em emitter, kvs map[string]string, expect func(rec.Call, error, bool)) {
	var in error
	fresh := false
	var old *errInfo
	list := w.infos
	switch op.Err {
	case "muted":
		in = health.Mute(mkErr("plain", string(op.Val)))
	case "again":
		if op.Ref < len(list) {
			old = &list[op.Ref]
			in = old.err
		}
	case "mutedAgain":
		if op.Ref < len(list) {
			in = health.Mute(list[op.Ref].err)
		}
	case "wrapped": // an error of the caller's own that has an earlier one inside
		if op.Ref < len(list) {
			in = fmt.Errorf("%s: %w", string(op.Val), list[op.Ref].err)
			fresh = true
		}
	case "joined":
		if op.Ref < len(list) {
			in = errors.Join(errors.New(string(op.Val)), list[op.Ref].err)
			fresh = true
		}
	case "wrappedMuted":
		in = fmt.Errorf("%s: %w", string(op.Val), health.Mute(errors.New("m")))
		fresh = true
	default:
		in = mkErr(op.Err, string(op.Val))
		fresh = true
	}
	if in == nil {
		in = mkErr("plain", string(op.Val))
		fresh = true
	}
	var jb *health.Job
	if op.J > 0 {
		jb = w.jobs[op.S][op.J-1]
	}
	expect(rec.Call{Kind: "eventErr", Event: string(op.Name)}, in, fresh)
	before := make([]int, len(w.sinks[op.S]))
	for k, sk := range w.sinks[op.S] {
		before[k] = sk.Len()
	}
	var at site
	ret := callErr(em, w.streams[op.S], jb, op.Op == "eventErrKv", op.Site, string(op.Name), in, kvs, &at)

	e := &w.errProblems
	if ret == nil || ret.Error() != in.Error() {
		e.Addf("op %d: %s returned %v for error %v", i, op.Op, ret, in)
		w.infos = append(list, errInfo{err: health.Mute(in)})
		return
	}
	info := errInfo{err: ret, at: at}
	switch r := ret.(type) {
	case *health.MutedError:
		if ret != in {
			e.Addf("op %d: a muted error came back as a different one", i)
		}
		if fresh {
			e.Addf("op %d: a plain error came back muted", i)
		}
	case *health.UnmutedError:
		if _, ok := in.(*health.MutedError); ok {
			e.Addf("op %d: a muted error came back unmuted", i)
		}
		if !r.Emitted {
			e.Addf("op %d: the returned error is not marked as emitted", i)
		}
		if fresh {
			if !sameErr(r.Err, in) {
				e.Addf("op %d: the returned error wraps %T(%v), want the emitted %T(%v)", i, r.Err, r.Err, in, in)
			}
			if r.Stack == nil || len(r.Stack.Frames()) == 0 {
				e.Addf("op %d: the returned error has no stack trace", i)
			} else {
				f := r.Stack.Frames()[0]
				if f.Package+"."+f.Name != at.fn || f.LineNumber != at.line || f.File != at.file {
					e.Addf("op %d (call site %d): the stack trace starts at %s:%d %s.%s, want %s:%d %s", i, op.Site, f.File, f.LineNumber, f.Package, f.Name, at.file, at.line, at.fn)
				}
				info.frames = string(r.Stack.Stack())
			}
		} else {
			if ret != in {
				e.Addf("op %d: an error that was already wrapped was wrapped again", i)
			}
			if old != nil {
				if r.Stack == nil || string(r.Stack.Stack()) != old.frames {
					e.Addf("op %d: emitting an error again changed its stack trace", i)
				}
				info.frames = old.frames
			}
		}
	default:
		e.Addf("op %d: %s returned a %T, neither muted nor unmuted", i, op.Op, ret)
		info.err = health.Mute(in)
	}
	for k, sk := range w.sinks[op.S] {
		if len(sk.Calls) <= before[k] {
			continue
		}
		c := sk.Calls[before[k]]
		if c.Err != ret {
			e.Addf("op %d: sink %d got a different error value (%T) than the caller got back (%T)", i, k, c.Err, ret)
		}
		if _, ok := c.Err.(*health.UnmutedError); ok {
			if c.Emitted != !fresh {
				e.Addf("op %d: sink %d saw Emitted=%v, want %v", i, k, c.Emitted, !fresh)
			}
		}
	}
	w.infos = append(list, info)
}

func sameErr(a, b error) (same bool) {
	if _, ok := b.(structErr); ok {
		s, ok := a.(structErr)
		return ok && s.Msg == b.(structErr).Msg
	}
	return a == b
}

var _ core.Errs
