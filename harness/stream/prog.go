// Package stream checks what a Stream and its Jobs hand to their sinks (C01 to C05).
package stream

import (
	"errors"
	"math"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/rec"
)

// Op is one operation of a program over a few streams.
type Op struct {
	Op     string   `json:"op"`
	S      int      `json:"s,omitempty"`    // stream
	J      int      `json:"j,omitempty"`    // 0: the stream itself; otherwise the stream's (J-1)th job
	Iface  bool     `json:"if,omitempty"`   // call through health.EventReceiver
	Name   core.Str `json:"n,omitempty"`    // event, job or key
	Val    core.Str `json:"v,omitempty"`    // value of a key, message of an error
	Kvs    core.Kvs `json:"kvs"`            // per-call key/values
	Nanos  int64    `json:"ns,omitempty"`   // timing; time to sleep
	Gauge  core.F64 `json:"g,omitzero"`     //
	Status int      `json:"st,omitempty"`   //
	Err    string   `json:"err,omitempty"`  // plain, custom, muted, again (an error an earlier call returned), mutedAgain, wrapped, joined, wrappedMuted
	Ref    int      `json:"ref,omitempty"`  // which earlier error
	Site   int      `json:"site,omitempty"` // call site
}

// Prog is a program.
type Prog struct {
	Streams int   `json:"streams"`
	Sinks   []int `json:"sinks"` // sinks of each stream at the start
	Ops     []Op  `json:"ops"`
}

type customErr struct{ msg string }

func (c customErr) Error() string { return c.msg }

type structErr struct {
	Code int
	Msg  string
	list []string // makes the type incomparable
}

func (c structErr) Error() string { return c.Msg }

func mkErr(kind, msg string) error {
	switch kind {
	case "custom":
		return customErr{msg}
	case "incomparable":
		return structErr{Code: 1, Msg: msg, list: []string{"x"}}
	case "ptr":
		return &customErr{msg}
	}
	return errors.New(msg)
}

var needsRef = map[string]bool{"again": true, "mutedAgain": true, "wrapped": true, "joined": true}

var emitKinds = []string{"event", "eventKv", "eventErr", "eventErrKv", "timing", "timingKv", "gauge", "gaugeKv", "complete", "completeKv"}

// genProg draws a program; kvBias makes it use key/values a lot.
func genProg(t *rapid.T, maxOps int, kvBias bool) Prog {
	p := Prog{Streams: 1 + core.Uniform(t, "streams", 3)}
	jobs := make([]int, p.Streams)
	for i := 0; i < p.Streams; i++ {
		p.Sinks = append(p.Sinks, core.Uniform(t, "sinks", 4))
	}
	errs := 0
	n := core.Len(t, "len", 1, maxOps)
	for i := 0; i < n; i++ {
		op := Op{S: core.Uniform(t, "s", p.Streams)}
		op.J = core.Uniform(t, "j", jobs[op.S]+1)
		k := core.Uniform(t, "kind", 100)
		lim := [3]int{6, 12, 20} // addSink, keyvalue, newJob
		if kvBias {
			lim = [3]int{3, 28, 38}
		}
		switch {
		case k < lim[0]:
			op.Op = "addSink"
		case k < lim[1]:
			op.Op = "keyValue"
			op.Name = core.Str(core.Key(t, "key", true))
			op.Val = core.Str(core.Text(t, "val", true))
		case k < lim[2]:
			op.Op = "newJob"
			op.Name = core.Str(core.Name(t, "job", core.NameOpts{Empty: true, BadUTF8: true}))
			jobs[op.S]++
		case k < lim[2]+6:
			op.Op = "sleep"
			op.Nanos = core.Nanos(t, "sleep", false)
		default:
			op.Op = rapid.SampledFrom(emitKinds).Draw(t, "emit")
			if kvBias && core.Chance(t, "kvs", 1, 2) {
				op.Op = core.Pick(t, "emitKv", "eventKv", "eventErrKv", "timingKv", "gaugeKv", "completeKv")
			}
			op.Iface = core.Chance(t, "iface", 1, 4)
			op.Name = core.Str(core.Name(t, "name", core.NameOpts{Empty: true, BadUTF8: true, MaxLen: 2000}))
			switch op.Op {
			case "timing", "timingKv":
				op.Nanos = core.Nanos(t, "nanos", true)
				if core.Chance(t, "neg", 1, 15) {
					op.Nanos = -op.Nanos
				}
			case "gauge", "gaugeKv":
				op.Gauge = core.F64(core.Gauge(t, "gauge", math.MaxFloat64))
				if core.Chance(t, "odd", 1, 15) {
					op.Gauge = core.F64(core.Pick(t, "oddv", math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)))
				}
			case "complete", "completeKv":
				op.Status = core.Uniform(t, "status", 5)
				if core.Chance(t, "strangeStatus", 1, 20) {
					op.Status = core.Pick(t, "strange", 5, -1, 1000)
				}
			case "eventErr", "eventErrKv":
				op.Err = core.Pick(t, "errKind", "plain", "plain", "custom", "ptr", "incomparable", "muted", "muted", "again", "again", "mutedAgain", "wrapped", "joined", "wrappedMuted")
				op.Val = core.Str(core.Text(t, "msg", true))
				op.Site = core.Uniform(t, "site", 9)
				if needsRef[op.Err] {
					if errs == 0 {
						op.Err = "plain"
					} else {
						op.Ref = core.Uniform(t, "ref", errs)
					}
				}
				errs++
			}
			if len(op.Op) > 2 && op.Op[len(op.Op)-2:] == "Kv" {
				op.Kvs = core.GenKvs(t, "kvs", true)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// emitter is what Stream and Job have in common.
type emitter interface {
	health.EventReceiver
	Complete(health.CompletionStatus)
	CompleteKv(health.CompletionStatus, map[string]string)
}

// want is an expected sink call. Durations of completions are left to C05.
type want struct {
	rec.Call
	in     error // the error passed in
	fresh  bool  // it was neither muted nor unmuted before
	merged map[string]string
	op     int
}

type world struct {
	streams     []*health.Stream
	jobs        [][]*health.Job
	sinks       [][]*rec.Sink
	wants       [][][]want // per stream, per sink
	skv         []map[string]string
	jkv         [][]map[string]string
	names       [][]string
	starts      [][]time.Time
	infos       []errInfo
	problems    core.Errs
	errProblems core.Errs
	seq         int
}

func sameKvs(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func cp(m map[string]string) map[string]string {
	d := map[string]string{}
	for k, v := range m {
		d[k] = v
	}
	return d
}

// run executes the program and the model side by side.
func (p Prog) run(before func(s, k int) func()) *world {
	w := &world{}
	addSink := func(s int) {
		k := len(w.sinks[s])
		sk := &rec.Sink{Seq: &w.seq}
		if before != nil {
			sk.Before = before(s, k)
		}
		w.sinks[s] = append(w.sinks[s], sk)
		w.wants[s] = append(w.wants[s], nil)
		if r := w.streams[s].AddSink(sk); r != w.streams[s] {
			w.problems.Addf("AddSink did not return its stream")
		}
	}
	for i := 0; i < p.Streams; i++ {
		w.streams = append(w.streams, health.NewStream())
		w.jobs = append(w.jobs, nil)
		w.sinks = append(w.sinks, nil)
		w.wants = append(w.wants, nil)
		w.skv = append(w.skv, map[string]string{})
		w.jkv = append(w.jkv, []map[string]string{{}})
		w.names = append(w.names, []string{"general"})
		w.starts = append(w.starts, []time.Time{time.Now()})
		for k := 0; k < p.Sinks[i]; k++ {
			addSink(i)
		}
	}
	for i, op := range p.Ops {
		s := op.S
		st := w.streams[s]
		var em emitter = st
		if op.J > 0 {
			em = w.jobs[s][op.J-1]
		}
		name := string(op.Name)
		kvs := op.Kvs.Map()
		expect := func(c rec.Call, in error, fresh bool) {
			c.Job = w.names[s][op.J]
			m := map[string]string{}
			for k, v := range w.skv[s] {
				m[k] = v
			}
			for k, v := range w.jkv[s][op.J] {
				m[k] = v
			}
			for k, v := range kvs {
				m[k] = v
			}
			c.At = time.Now()
			for k := range w.sinks[s] {
				w.wants[s][k] = append(w.wants[s][k], want{Call: c, in: in, fresh: fresh, merged: m, op: i})
			}
		}
		before := make([]int, len(w.sinks[s]))
		for k, sk := range w.sinks[s] {
			before[k] = sk.Len()
		}
		var er health.EventReceiver = em
		if !op.Iface {
			er = nil
		}
		switch op.Op {
		case "addSink":
			addSink(s)
			before = append(before, 0)
		case "keyValue":
			if op.J == 0 {
				// Stream has its own KeyValue, for the stream as a whole.
				if r := st.KeyValue(name, string(op.Val)); r != st {
					w.problems.Addf("op %d: Stream.KeyValue did not return its stream", i)
				}
				w.skv[s][name] = string(op.Val)
			} else {
				j := w.jobs[s][op.J-1]
				if r := j.KeyValue(name, string(op.Val)); r != j {
					w.problems.Addf("op %d: Job.KeyValue did not return its job", i)
				}
				w.jkv[s][op.J][name] = string(op.Val)
			}
		case "newJob":
			w.jobs[s] = append(w.jobs[s], st.NewJob(name))
			w.jkv[s] = append(w.jkv[s], map[string]string{})
			w.names[s] = append(w.names[s], name)
			w.starts[s] = append(w.starts[s], time.Now())
		case "sleep":
			time.Sleep(time.Duration(op.Nanos))
		case "event":
			expect(rec.Call{Kind: "event", Event: name}, nil, false)
			if er != nil {
				er.Event(name)
			} else {
				em.Event(name)
			}
		case "eventKv":
			expect(rec.Call{Kind: "event", Event: name}, nil, false)
			if er != nil {
				er.EventKv(name, kvs)
			} else {
				em.EventKv(name, kvs)
			}
		case "timing":
			expect(rec.Call{Kind: "timing", Event: name, Nanos: op.Nanos}, nil, false)
			if er != nil {
				er.Timing(name, op.Nanos)
			} else {
				em.Timing(name, op.Nanos)
			}
		case "timingKv":
			expect(rec.Call{Kind: "timing", Event: name, Nanos: op.Nanos}, nil, false)
			em.TimingKv(name, op.Nanos, kvs)
		case "gauge":
			expect(rec.Call{Kind: "gauge", Event: name, Value: float64(op.Gauge)}, nil, false)
			if er != nil {
				er.Gauge(name, float64(op.Gauge))
			} else {
				em.Gauge(name, float64(op.Gauge))
			}
		case "gaugeKv":
			expect(rec.Call{Kind: "gauge", Event: name, Value: float64(op.Gauge)}, nil, false)
			em.GaugeKv(name, float64(op.Gauge), kvs)
		case "complete":
			expect(rec.Call{Kind: "complete", Status: health.CompletionStatus(op.Status), Nanos: int64(time.Since(w.starts[s][op.J]))}, nil, false)
			em.Complete(health.CompletionStatus(op.Status))
		case "completeKv":
			expect(rec.Call{Kind: "complete", Status: health.CompletionStatus(op.Status), Nanos: int64(time.Since(w.starts[s][op.J]))}, nil, false)
			em.CompleteKv(health.CompletionStatus(op.Status), kvs)
		case "eventErr", "eventErrKv":
			p.emitErr(w, i, op, em, kvs, expect)
		}
		// Exactly the sinks of this stream got exactly the calls expected so far; nobody else got anything.
		for s2 := range w.sinks {
			for k, sk := range w.sinks[s2] {
				if got, exp := sk.Len(), len(w.wants[s2][k]); got != exp {
					w.problems.Addf("after op %d (%s on stream %d): sink %d of stream %d has been called %d times, want %d", i, op.Op, s, k, s2, got, exp)
				}
			}
		}
		if !sameKvs(kvs, op.Kvs.Map()) || (kvs == nil) != (op.Kvs == nil) {
			w.problems.Addf("after op %d (%s): the caller's map was changed to %q", i, op.Op, kvs)
		}
		for s2, st2 := range w.streams {
			if !sameKvs(st2.KeyValues, w.skv[s2]) {
				w.problems.Addf("after op %d (%s): key/values of stream %d are %q, want %q", i, op.Op, s2, st2.KeyValues, w.skv[s2])
			}
			for j, jb := range w.jobs[s2] {
				if !sameKvs(jb.KeyValues, w.jkv[s2][j+1]) {
					w.problems.Addf("after op %d (%s): key/values of job %d of stream %d are %q, want %q", i, op.Op, j, s2, jb.KeyValues, w.jkv[s2][j+1])
				}
			}
		}
	}
	return w
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// compareArgs compares everything but key/values, error identity and completion durations.
func (w *world) compareArgs(e *core.Errs) {
	for s := range w.sinks {
		for k, sk := range w.sinks[s] {
			for i, c := range sk.Calls {
				if i >= len(w.wants[s][k]) {
					break
				}
				x := w.wants[s][k][i]
				nanos := x.Nanos
				if c.Kind == "complete" {
					nanos = c.Nanos
				}
				if c.Kind != x.Kind || c.Job != x.Job || c.Event != x.Event || c.Nanos != nanos || !sameFloat(c.Value, x.Value) || c.Status != x.Status {
					e.Addf("op %d: sink %d of stream %d got %v, want %v", x.op, k, s, c, x.Call)
				}
				if x.in != nil {
					if c.Err == nil || c.Err.Error() != x.in.Error() {
						e.Addf("op %d: sink %d of stream %d got error %v, want %v", x.op, k, s, c.Err, x.in)
					}
				}
			}
		}
	}
}

func (w *world) compareKvs(e *core.Errs) {
	for s := range w.sinks {
		for k, sk := range w.sinks[s] {
			for i, c := range sk.Calls {
				if i >= len(w.wants[s][k]) {
					break
				}
				x := w.wants[s][k][i]
				if !sameKvs(c.Kvs, x.merged) {
					e.Addf("op %d: sink %d of stream %d got key/values %q, want %q", x.op, k, s, c.Kvs, x.merged)
				}
			}
		}
	}
}

func (w *world) compareDurations(e *core.Errs) {
	for s := range w.sinks {
		for k, sk := range w.sinks[s] {
			for i, c := range sk.Calls {
				if i >= len(w.wants[s][k]) {
					break
				}
				x := w.wants[s][k][i]
				if c.Kind == "complete" && x.Kind == "complete" && c.Nanos != x.Nanos {
					e.Addf("op %d: sink %d of stream %d got a duration of %d ns for job %q, want %d ns", x.op, k, s, c.Nanos, c.Job, x.Nanos)
				}
			}
		}
	}
}

func merge(a, b core.Errs) error {
	if err := a.Err(); err != nil {
		return err
	}
	return b.Err()
}
