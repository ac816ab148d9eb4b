package stream

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/rec"
)

func progLabels(p Prog) (emits, multi int, labels []string) {
	sinks := append([]int(nil), p.Sinks...)
	kinds := map[string]bool{}
	kvs, kvSrc, late, again := 0, map[string]bool{}, 0, 0
	for _, op := range p.Ops {
		switch op.Op {
		case "addSink":
			sinks[op.S]++
			if emits > 0 {
				late++
			}
		case "keyValue":
			kvSrc[fmt.Sprint(op.S, op.J)] = true
		case "newJob", "sleep":
		default:
			emits++
			kinds[op.Op] = true
			if sinks[op.S] > 1 {
				multi++
			}
			if len(op.Kvs) > 0 && (kvSrc[fmt.Sprint(op.S, op.J)] || kvSrc[fmt.Sprint(op.S, 0)]) {
				kvs++
			}
			if needsRef[op.Err] {
				again++
			}
		}
	}
	if late > 0 {
		labels = append(labels, "sink-added-late")
	}
	if p.Streams > 1 {
		labels = append(labels, "several-streams")
	}
	if kvs > 0 {
		labels = append(labels, "merged-kvs")
	}
	if again > 0 {
		labels = append(labels, "error-emitted-again")
	}
	if len(kinds) >= 5 {
		labels = append(labels, "5+-kinds")
	}
	return
}

func TestC01_fanout(t *testing.T) {
	core.Check(t, core.Sub[Prog]{
		Bubble: true,
		Gen:    func(t *rapid.T) Prog { return genProg(t, 150, false) },
		Run: func(p Prog) error {
			w := p.run(nil)
			var e core.Errs
			w.compareArgs(&e)
			return merge(w.problems, e)
		},
		Classify: func(p Prog) (bool, []string) {
			emits, multi, labels := progLabels(p)
			return emits >= 2 && multi >= 1, labels
		},
	})
}

func TestC02_kvs(t *testing.T) {
	core.Check(t, core.Sub[Prog]{
		Bubble: true,
		Gen:    func(t *rapid.T) Prog { return genProg(t, 150, true) },
		Run: func(p Prog) error {
			w := p.run(nil)
			var e core.Errs
			w.compareKvs(&e)
			return merge(w.problems, e)
		},
		Classify: func(p Prog) (bool, []string) {
			_, multi, labels := progLabels(p)
			return strings.Contains(strings.Join(labels, " "), "merged-kvs") && multi >= 1, labels
		},
	})
}

func TestC03_errors(t *testing.T) {
	core.Check(t, core.Sub[Prog]{
		Bubble: true,
		Gen: func(t *rapid.T) Prog {
			p := genProg(t, 80, false)
			// Mostly errors: turn other emissions into errors.
			errs := 0
			for i, op := range p.Ops {
				switch op.Op {
				case "event", "timing", "gauge", "eventKv", "timingKv", "gaugeKv":
					op.Op = core.Pick(t, "x", "eventErr", "eventErrKv")
					op.Err = core.Pick(t, "errKind", "plain", "plain", "custom", "ptr", "incomparable", "muted", "muted", "again", "again", "mutedAgain", "wrapped", "joined", "wrappedMuted")
					op.Val = core.Str(core.Text(t, "msg", true))
					op.Site = core.Uniform(t, "site", 9)
					op.Iface = false
				}
				if op.Err != "" {
					if needsRef[op.Err] {
						if errs == 0 {
							op.Err = "plain"
						} else {
							op.Ref = core.Uniform(t, "ref", errs)
						}
					}
					errs++
				}
				p.Ops[i] = op
			}
			return p
		},
		Run: func(p Prog) error {
			w := p.run(nil)
			var e core.Errs
			w.compareArgs(&e)
			if err := w.errProblems.Err(); err != nil {
				return err
			}
			return merge(w.problems, e)
		},
		Classify: func(p Prog) (bool, []string) {
			_, multi, labels := progLabels(p)
			return strings.Contains(strings.Join(labels, " "), "error-emitted-again") && multi >= 1, labels
		},
	})
}

// DurCase: a program in which some sinks are slow.
type DurCase struct {
	Prog
	Slow []int64 `json:"slow"` // how long each call of the kth sink takes (for every stream)
}

func TestC05_duration(t *testing.T) {
	core.Check(t, core.Sub[DurCase]{
		Bubble: true,
		Gen: func(t *rapid.T) DurCase {
			c := DurCase{Prog: genProg(t, 60, false)}
			for i, op := range c.Ops {
				switch op.Op {
				case "event", "timing", "gauge":
					op.Op, op.Status = core.Pick(t, "x", "complete", "completeKv"), core.Uniform(t, "status", 5)
					op.Nanos, op.Gauge, op.Iface = 0, 0, false
				case "addSink":
					if core.Chance(t, "y", 1, 2) {
						op.Op, op.Nanos = "sleep", core.Nanos(t, "sleep", false)
					}
				}
				c.Ops[i] = op
			}
			n := core.Uniform(t, "slow", 4)
			for i := 0; i < n; i++ {
				c.Slow = append(c.Slow, core.Nanos(t, "slowNanos", false))
			}
			return c
		},
		Run: func(c DurCase) error {
			w := c.run(func(s, k int) func() {
				if k < len(c.Slow) && c.Slow[k] > 0 {
					return func() { time.Sleep(time.Duration(c.Slow[k])) }
				}
				return nil
			})
			var e core.Errs
			w.compareArgs(&e)
			w.compareDurations(&e)
			return merge(w.problems, e)
		},
		Classify: func(c DurCase) (bool, []string) {
			var labels []string
			completes, slept, jobs := 0, false, 0
			for _, op := range c.Ops {
				switch op.Op {
				case "complete", "completeKv":
					if slept {
						completes++
					}
				case "sleep":
					slept = slept || op.Nanos > 0
				case "newJob":
					jobs++
				}
			}
			if len(c.Slow) > 0 {
				labels = append(labels, "slow-sinks")
			}
			if jobs > 0 {
				labels = append(labels, "jobs")
			}
			return completes > 0, labels
		},
	})
}

// RunNode is a call of Stream.Run or Job.Run, with what happens inside.
type RunNode struct {
	S       int       `json:"s,omitempty"`
	NewJob  bool      `json:"newJob,omitempty"` // through a job made before (and slept after), not through the stream
	Reuse   bool      `json:"reuse,omitempty"`  // run the parent's job again, if there is one
	Name    core.Str  `json:"n"`
	Wait    int64     `json:"wait,omitempty"`  // between making the job and running it
	Sleep   int64     `json:"sleep,omitempty"` // inside
	Events  int       `json:"ev,omitempty"`
	Inner   []RunNode `json:"inner,omitempty"`
	Outcome string    `json:"out"` // ok, err, muted, unmuted, inner (return the last inner error), panic:*
	Msg     core.Str  `json:"msg,omitempty"`
}

type RunCase struct {
	Streams int       `json:"streams"`
	Sinks   []int     `json:"sinks"`
	Skv     core.Kvs  `json:"skv"`
	Nodes   []RunNode `json:"nodes"`
}

var panics = []string{"panic:string", "panic:error", "panic:int", "panic:struct", "panic:custom", "panic:index", "panic:nilmap", "panic:nilptr", "panic:nil", "panic:unmuted", "panic:muted", "panic:stringer", "panic:deep"}

func genNode(t *rapid.T, depth int, streams int) RunNode {
	n := RunNode{S: core.Uniform(t, "s", streams), Name: core.Str(core.Name(t, "job", core.NameOpts{Empty: true, BadUTF8: true}))}
	switch core.Uniform(t, "how", 4) {
	case 0:
		n.NewJob = true
		n.Wait = core.Nanos(t, "wait", false)
	case 1:
		n.Reuse = true
	}
	if core.Chance(t, "sleeps", 1, 2) {
		n.Sleep = core.Nanos(t, "sleep", false)
	}
	n.Events = core.Uniform(t, "events", 3)
	if depth > 0 {
		k := core.Uniform(t, "inner", 4)
		for i := 0; i < k; i++ {
			n.Inner = append(n.Inner, genNode(t, depth-1, streams))
		}
	}
	switch k := core.Uniform(t, "outcome", 20); {
	case k < 5:
		n.Outcome = "ok"
	case k < 7:
		n.Outcome = "err"
	case k < 8:
		n.Outcome = "muted"
	case k < 9:
		n.Outcome = "unmuted"
	case k < 12:
		n.Outcome = "inner"
	default:
		n.Outcome = rapid.SampledFrom(panics).Draw(t, "panic")
	}
	n.Msg = core.Str(core.Text(t, "msg", true))
	return n
}

type stringerVal struct{ s string }

func (s stringerVal) String() string { return "stringer:" + s.s }

type plainStruct struct {
	A int
	B string
}

// panicHere panics; its name must show in the recorded stack.
//
//go:noinline
func panicHere(kind, msg string, zero int) {
	switch kind {
	case "panic:string":
		panic(msg)
	case "panic:error":
		panic(fmt.Errorf("%s", msg))
	case "panic:int":
		panic(len(msg))
	case "panic:struct":
		panic(plainStruct{len(msg), msg})
	case "panic:custom":
		panic(customErr{msg})
	case "panic:stringer":
		panic(stringerVal{msg})
	case "panic:index":
		_ = make([]int, zero)[zero]
	case "panic:nilmap":
		var m map[string]int
		m[msg] = 1
	case "panic:nilptr":
		var p *plainStruct
		if zero == 0 {
			_ = p.B + msg
		}
	case "panic:nil":
		panic(nil)
	case "panic:unmuted":
		panic(&health.UnmutedError{Err: fmt.Errorf("%s", msg)})
	case "panic:muted":
		panic(health.Mute(fmt.Errorf("%s", msg)))
	case "panic:deep":
		deep(40, func() { panicHere("panic:string", msg, 0) })
	}
}

// panicMessage is what the panic's error must say.
func panicMessage(kind, msg string) (m string) {
	defer func() { m = fmt.Sprint(recover()) }()
	panicHere(kind, msg, 0)
	return ""
}

type runModel struct {
	wants   [][]rec.Call // per stream
	streams []*health.Stream
	e       core.Errs
	n       int
}

// exec runs a node and returns what Run returned and whether it is right.
func (m *runModel) exec(n RunNode, parent *health.Job, parentStart time.Time, parentS int) error {
	s := n.S
	start := time.Now()
	var job *health.Job
	name := string(n.Name)
	if n.Reuse && parent != nil {
		job, s, start, name = parent, parentS, parentStart, parent.JobName
	} else if n.NewJob {
		job = m.streams[s].NewJob(name)
		time.Sleep(time.Duration(n.Wait))
	}
	m.n++
	id := m.n
	var last error
	var ret error
	calls := 0
	body := func() error {
		calls++
		time.Sleep(time.Duration(n.Sleep))
		for i := 0; i < n.Events; i++ {
			m.wants[s] = append(m.wants[s], rec.Call{Kind: "event", Job: "general", Event: fmt.Sprint("in", id)})
			m.streams[s].Event(fmt.Sprint("in", id))
		}
		for _, in := range n.Inner {
			last = m.exec(in, job, start, s)
		}
		switch n.Outcome {
		case "ok":
		case "err":
			ret = fmt.Errorf("%s", n.Msg)
		case "muted":
			ret = health.Mute(fmt.Errorf("%s", n.Msg))
		case "unmuted":
			m.wants[s] = append(m.wants[s], rec.Call{Kind: "eventErr", Job: "general", Event: "u", Err: fmt.Errorf("%s", n.Msg)})
			ret = m.streams[s].EventErr("u", fmt.Errorf("%s", n.Msg))
		case "inner":
			ret = last
		default:
			panicHere(n.Outcome, string(n.Msg), 0)
		}
		return ret
	}
	var got error
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.e.Addf("run %d (%s): a panic escaped Run: %v", id, n.Outcome, r)
			}
		}()
		if job != nil {
			got = job.Run(body)
		} else {
			got = m.streams[s].Run(name, body)
		}
	}()
	d := int64(time.Since(start))
	if calls != 1 {
		m.e.Addf("run %d: the function was called %d times", id, calls)
	}
	if strings.HasPrefix(n.Outcome, "panic:") {
		msg := panicMessage(n.Outcome, string(n.Msg))
		m.wants[s] = append(m.wants[s],
			rec.Call{Kind: "eventErr", Job: name, Event: "panic", Err: fmt.Errorf("%s", msg), Kvs: map[string]string{"stack": ""}},
			rec.Call{Kind: "complete", Job: name, Status: health.Panic, Nanos: d})
		if got == nil || got.Error() != msg {
			m.e.Addf("run %d: Run returned %v after a panic, want %q", id, got, msg)
		}
		return got
	}
	st := health.Success
	if ret != nil {
		st = health.Error
	}
	m.wants[s] = append(m.wants[s], rec.Call{Kind: "complete", Job: name, Status: st, Nanos: d})
	if got != ret {
		m.e.Addf("run %d (%s): Run returned %v, the function returned %v", id, n.Outcome, got, ret)
	}
	return got
}

func countNodes(ns []RunNode, f func(RunNode, int), d int) {
	for _, n := range ns {
		f(n, d)
		countNodes(n.Inner, f, d+1)
	}
}

func genRun(t *rapid.T) RunCase {
	c := RunCase{Streams: 1 + core.Uniform(t, "streams", 2)}
	for i := 0; i < c.Streams; i++ {
		c.Sinks = append(c.Sinks, 1+core.Uniform(t, "sinks", 3))
	}
	c.Skv = core.GenKvs(t, "skv", true)
	n := 1 + core.Uniform(t, "nodes", 4)
	for i := 0; i < n; i++ {
		c.Nodes = append(c.Nodes, genNode(t, 3, c.Streams))
	}
	return c
}

// run executes the case; the results are the model and the sinks of each stream.
func (c RunCase) run() (*runModel, [][]*rec.Sink) {
	m := &runModel{}
	var sinks [][]*rec.Sink
	for i := 0; i < c.Streams; i++ {
		st := health.NewStream()
		for k, v := range c.Skv.Map() {
			st.KeyValue(k, v)
		}
		var list []*rec.Sink
		for k := 0; k < c.Sinks[i]; k++ {
			sk := &rec.Sink{}
			list = append(list, sk)
			st.AddSink(sk)
		}
		sinks = append(sinks, list)
		m.streams = append(m.streams, st)
		m.wants = append(m.wants, nil)
	}
	for _, n := range c.Nodes {
		m.exec(n, nil, time.Time{}, 0)
	}
	return m, sinks
}

func TestC04_run(t *testing.T) {
	core.Check(t, core.Sub[RunCase]{
		Bubble: true,
		Gen:    genRun,
		Run: func(c RunCase) error {
			m, sinks := c.run()
			for s := range sinks {
				for k, sk := range sinks[s] {
					if len(sk.Calls) != len(m.wants[s]) {
						m.e.Addf("sink %d of stream %d got %d calls, want %d: %v", k, s, len(sk.Calls), len(m.wants[s]), sk.Calls)
						continue
					}
					for i, g := range sk.Calls {
						x := m.wants[s][i]
						if g.Kind != x.Kind || g.Job != x.Job || g.Event != x.Event || g.Status != x.Status || g.Nanos != x.Nanos {
							m.e.Addf("call %d of sink %d of stream %d: got %v, want %v", i, k, s, g, x)
						}
						if x.Err != nil && (g.Err == nil || g.Err.Error() != x.Err.Error()) {
							m.e.Addf("call %d of sink %d of stream %d: got error %v, want %v", i, k, s, g.Err, x.Err)
						}
						wantKv := c.Skv.Map()
						if _, ok := x.Kvs["stack"]; ok {
							if _, muted := g.Err.(*health.MutedError); muted {
								m.e.Addf("call %d of sink %d of stream %d: the panic was reported muted", i, k, s)
							}
							stk := g.Kvs["stack"]
							if !strings.Contains(stk, "panicHere") {
								m.e.Addf("call %d of sink %d of stream %d: the stack of the panic does not show where it happened: %q", i, k, s, stk)
							}
							wantKv = cp(wantKv)
							wantKv["stack"] = stk
						}
						if !sameKvs(g.Kvs, wantKv) {
							m.e.Addf("call %d of sink %d of stream %d: got key/values %q, want %q", i, k, s, g.Kvs, wantKv)
						}
					}
				}
			}
			return m.e.Err()
		},
		Classify: func(c RunCase) (bool, []string) {
			var labels []string
			pan, nested, errs := 0, 0, 0
			countNodes(c.Nodes, func(n RunNode, d int) {
				if strings.HasPrefix(n.Outcome, "panic:") {
					pan++
				}
				if n.Outcome == "err" || n.Outcome == "inner" {
					errs++
				}
				if d > 0 {
					nested++
				}
			}, 0)
			if pan > 0 {
				labels = append(labels, "panics")
			}
			if nested > 0 {
				labels = append(labels, "nested")
			}
			if errs > 0 {
				labels = append(labels, "errors")
			}
			return pan > 0 || errs > 0, labels
		},
	})
}

// TestC05_run looks only at the durations of jobs that are run.
func TestC05_run(t *testing.T) {
	core.Check(t, core.Sub[RunCase]{
		Bubble: true,
		Gen:    genRun,
		Run: func(c RunCase) error {
			m, sinks := c.run()
			var e core.Errs
			of := func(calls []rec.Call) (cs []rec.Call) {
				for _, c := range calls {
					if c.Kind == "complete" {
						cs = append(cs, c)
					}
				}
				return
			}
			for s := range sinks {
				want := of(m.wants[s])
				for k, sk := range sinks[s] {
					got := of(sk.Calls)
					for i, x := range want {
						if len(got) == len(want) && got[i].Nanos != x.Nanos {
							e.Addf("completion %d of sink %d of stream %d: job %q was reported with %d ns, but it took %d ns", i, k, s, got[i].Job, got[i].Nanos, x.Nanos)
						}
					}
				}
			}
			return e.Err()
		},
		Classify: func(c RunCase) (bool, []string) {
			waits := 0
			countNodes(c.Nodes, func(n RunNode, d int) {
				if n.Sleep > 0 || n.NewJob && n.Wait > 0 {
					waits++
				}
			}, 0)
			return waits > 0, nil
		},
	})
}
