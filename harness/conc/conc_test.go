// Package conc checks concurrent use: generated programs for several goroutines on shared streams, jobs, errors, maps and
// sinks. Time is virtual and stands still while goroutines run, so every emission is known exactly, without recording
// anything in a way that would synchronise the goroutines (which would hide races from the race detector).
package conc

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/stack"
	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
	"verif/harness/httpx"
	"verif/harness/rec"
	"verif/harness/statsd"
)

func init() { core.Quiet() }

// Step is a step of a goroutine.
type Step struct {
	Op  string `json:"op"`            // event, err, again, timing, gauge, complete, run, frames, get, http, drain, yield, sleep, join
	On  int    `json:"on,omitempty"`  // 0: the stream, 1..: a shared job, -1: a job of its own
	Ev  int    `json:"ev,omitempty"`  // event name, or shared error
	N   int64  `json:"n,omitempty"`   // value, nanoseconds, status
	Kv  int    `json:"kv,omitempty"`  // 0: none (and a name of its own), 1: its own key/values, 2: shared key/values
	Rep int    `json:"rep,omitempty"` // so many times
	S   int    `json:"s,omitempty"`   // stream
}

// Case is a concurrent program.
type Case struct {
	Sinks   [][]string `json:"sinks"` // of each stream
	StreamK []core.Kvs `json:"stream_kvs,omitempty"`
	JobK    []core.Kvs `json:"job_kvs,omitempty"` // of the shared jobs
	Workers [][]Step   `json:"workers"`
	Procs   int        `json:"procs"`
}

// Emission is what must come out of a step.
type emission struct {
	rec.Call
	tag   string // of the goroutine and step, if it can be seen in the output
	w     int
	muted bool
	first bool
}

const names = 3

func (s Step) times() int {
	if s.Rep < 1 {
		return 1
	}
	return s.Rep
}

// tearing is a writer that notices when its argument changes during Write.
type tearing struct {
	mu    sync.Mutex
	lines []string
	torn  string
}

func (w *tearing) Write(p []byte) (int, error) {
	before := string(p)
	runtime.Gosched()
	after := string(p)
	w.mu.Lock()
	w.lines = append(w.lines, before)
	if before != after {
		w.torn = fmt.Sprintf("%q became %q during Write", before, after)
	}
	w.mu.Unlock()
	return len(p), nil
}

type sinks struct {
	kinds   []string
	rec     *rec.Sink
	poll    *health.JsonPollingSink
	text    *tearing
	js      *tearing
	statsd  *health.StatsDSink
	recv    *statsd.Recv
	bug     []*bugsnag.Sink
	bugURL  []string
	librato *librato.Sink
	user    string
}

func (x *sinks) attach(st *health.Stream, kinds []string, id int) error {
	x.kinds = kinds
	for _, k := range kinds {
		switch k {
		case "rec":
			x.rec = &rec.Sink{}
			st.AddSink(x.rec)
		case "poll":
			x.poll = health.NewJsonPollingSink(time.Hour, 2*time.Hour)
			st.AddSink(x.poll)
		case "text":
			x.text = &tearing{}
			st.AddSink(&health.WriterSink{Writer: x.text})
		case "json":
			x.js = &tearing{}
			st.AddSink(&health.JsonWriterSink{Writer: x.js})
		case "statsd":
			x.recv = statsd.Fresh()
			s, err := health.NewStatsDSink(x.recv.Addr(), nil)
			if err != nil {
				return core.Inconclusive("NewStatsDSink: %v", err)
			}
			x.statsd = s
			st.AddSink(s)
		case "bugsnag":
			u := fmt.Sprintf("https://bugsnag%d-%d.test/", id, len(x.bug))
			b := bugsnag.NewSink(&bugsnag.Config{APIKey: "k", Endpoint: u})
			x.bug, x.bugURL = append(x.bug, b), append(x.bugURL, u)
			st.AddSink(b)
		case "librato":
			x.user = fmt.Sprintf("user%d", id)
			x.librato = librato.New(x.user, "key", "p")
			st.AddSink(x.librato)
		}
	}
	return nil
}

func (x *sinks) stop() {
	if x.poll != nil {
		x.poll.ShutdownServer()
	}
	if x.statsd != nil {
		x.statsd.Stop()
	}
	if x.recv != nil {
		x.recv.Close()
	}
	for _, b := range x.bug {
		b.ShutdownServer()
	}
	if x.librato != nil {
		x.librato.Stop()
	}
}

type world struct {
	c       Case
	mu      sync.Mutex
	failed  error
	streams []*health.Stream
	sinks   []*sinks
	jobs    [][]*health.Job // of each stream
	shared  []error         // as returned by an earlier call
	frames  [][]stack.Frame
	kvs     map[string]string
	t0      time.Time
	setup   [][]emission // emitted before the goroutines start
}

func (w *world) fail(err error) {
	w.mu.Lock()
	if w.failed == nil {
		w.failed = err
	}
	w.mu.Unlock()
}

var jobNames = []string{"alpha", "beta"}

// merged is what key/values a sink gets.
func (c Case) merged(s, on int, call map[string]string) map[string]string {
	m := map[string]string{}
	add := func(k map[string]string) {
		for a, b := range k {
			m[a] = b
		}
	}
	if s < len(c.StreamK) {
		add(c.StreamK[s].Map())
	}
	if on > 0 && on <= len(c.JobK) {
		add(c.JobK[on-1].Map())
	}
	add(call)
	if len(m) == 0 {
		return nil
	}
	return m
}

// worker runs a goroutine's steps and returns what each stream must have got from it.
func (w *world) worker(id int, steps []Step) [][]emission {
	out := make([][]emission, len(w.streams))
	now := w.t0
	own := make([]*health.Job, len(w.streams))
	ownAt := make([]time.Time, len(w.streams))
	type snap struct {
		ivs  []*health.IntervalAggregation
		copy []*aggm.Interval
	}
	var snaps []snap
	last := map[string]int64{}
	n := 0
	for _, s := range steps {
		for r := 0; r < s.times(); r++ {
			n++
			si := s.S % len(w.streams)
			st := w.streams[si]
			x := w.sinks[si]
			tag := fmt.Sprintf("w%d-%d.", id, n)
			var job *health.Job
			jobName, on := "general", s.On
			start := w.t0
			switch {
			case on < 0:
				if own[si] == nil {
					own[si], ownAt[si] = st.NewJob(fmt.Sprintf("own%d-.", id)), now
				}
				job, jobName, start = own[si], fmt.Sprintf("own%d-.", id), ownAt[si]
			case on == 0:
				job = st.Job
			default:
				on = 1 + (on-1)%len(jobNames)
				job, jobName = w.jobs[si][on-1], jobNames[on-1]
			}
			name := fmt.Sprintf("ev%d", s.Ev%names)
			var call map[string]string
			switch s.Kv {
			case 0:
				name += tag
			case 1:
				call = map[string]string{"w": tag, "stream": "call", "j": tag}
			default:
				name += tag
				call = w.kvs
			}
			em := emission{w: id, tag: tag, Call: rec.Call{Job: jobName, Event: name, Kvs: w.c.merged(si, on, call)}}
			switch s.Op {
			case "event":
				em.Kind = "event"
				if s.Kv == 0 {
					job.Event(name)
				} else {
					job.EventKv(name, call)
				}
			case "err", "again":
				em.Kind = "eventErr"
				em.Err = errors.New("msg" + tag)
				switch s.N % 6 { // (the same as others)
				case 1:
					em.Err = errors.New("msg")
				case 4:
					em.Err = fmt.Errorf("wrapped: %w", w.shared[s.Ev%len(w.shared)])
				}
				em.first = true
				err := em.Err
				switch {
				case s.Op == "again":
					err = w.shared[s.Ev%len(w.shared)]
					em.Err, em.first = err, false
				case s.N%5 == 0:
					err = health.Mute(err)
					em.Err, em.muted = err, true
				}
				var ret error
				if s.Kv == 0 {
					ret = job.EventErr(name, err)
				} else {
					ret = job.EventErrKv(name, err, call)
				}
				if ret == nil || ret.Error() != err.Error() {
					w.fail(fmt.Errorf("goroutine %d: emitting error %q has returned %v", id, err, ret))
				}
				switch u := ret.(type) {
				case *health.UnmutedError:
					if !u.Emitted || em.muted {
						w.fail(fmt.Errorf("goroutine %d: emitting error %q has returned %#v", id, err, u))
					}
				case *health.MutedError:
					if !em.muted && s.Op != "again" {
						w.fail(fmt.Errorf("goroutine %d: emitting error %q has returned a muted error", id, err))
					}
				}
			case "timing":
				em.Kind, em.Nanos = "timing", s.N*1e6
				if s.Kv == 0 {
					job.Timing(name, em.Nanos)
				} else {
					job.TimingKv(name, em.Nanos, call)
				}
			case "gauge":
				em.Kind, em.Value = "gauge", float64(s.N+1)
				if s.Kv == 0 {
					job.Gauge(name, em.Value)
				} else {
					job.GaugeKv(name, em.Value, call)
				}
			case "complete":
				em.Kind, em.Event, em.Status, em.Nanos = "complete", "", health.CompletionStatus(s.N%5), int64(now.Sub(start))
				if s.Kv == 0 {
					if em.tag = ""; on < 0 {
						em.tag = tag
					}
					job.Complete(em.Status)
				} else {
					if s.Kv > 1 && on >= 0 {
						em.tag = ""
					}
					job.CompleteKv(em.Status, call)
				}
			case "run":
				em.Kind, em.Event, em.Kvs = "complete", "", w.c.merged(si, on, nil)
				runs := 0
				want := error(nil)
				f := func() error {
					runs++
					in := emission{w: id, tag: tag, Call: rec.Call{Kind: "event", Job: jobName, Event: "in" + tag, Kvs: em.Kvs}}
					job.Event("in" + tag)
					out[si] = append(out[si], in)
					switch s.N % 3 {
					case 0:
						want = errors.New("run" + tag)
						return want
					case 1:
						panic("panic" + tag)
					}
					return nil
				}
				em.Status = []health.CompletionStatus{health.Error, health.Panic, health.Success}[s.N%3]
				var err error
				if s.Kv == 0 && on == 0 {
					// a new job of the stream
					em.Job, em.Kvs, em.Nanos = "run"+tag, w.c.merged(si, 0, nil), 0
					err = st.Run(em.Job, f)
				} else {
					em.Nanos = int64(now.Sub(start))
					if on >= 0 {
						em.tag = ""
					}
					err = job.Run(f)
				}
				if runs != 1 || s.N%3 != 1 && err != want || s.N%3 == 1 && (err == nil || err.Error() != "panic"+tag) {
					w.fail(fmt.Errorf("goroutine %d: Run ran its function %d times and returned %v, want %v", id, runs, err, want))
				}
				if s.N%3 == 1 {
					p := emission{w: id, tag: tag, first: true, Call: rec.Call{Kind: "eventErr", Job: em.Job, Event: "panic", Err: errors.New("panic" + tag), Kvs: map[string]string{"stack": ""}}}
					for k, v := range em.Kvs {
						p.Kvs[k] = v
					}
					out[si] = append(out[si], p)
				}
			case "frames":
				i := s.Ev % len(w.shared)
				if u, ok := w.shared[i].(*health.UnmutedError); ok {
					if f := u.Stack.Frames(); !reflect.DeepEqual(f, w.frames[i]) && w.frames[i] != nil {
						w.fail(fmt.Errorf("goroutine %d: the frames of an error are %v, but were %v", id, f, w.frames[i]))
					} else if len(f) == 0 {
						w.fail(fmt.Errorf("goroutine %d: an error has no frames", id))
					}
				}
				continue
			case "get":
				if x.poll != nil {
					sn := snap{ivs: x.poll.GetMetrics()}
					total := map[string]int64{}
					for _, iv := range sn.ivs {
						sn.copy = append(sn.copy, aggm.From(iv))
						for k, v := range iv.Events {
							total[fmt.Sprint(si, k)] += v
						}
					}
					for k, v := range last {
						if strings.HasPrefix(k, fmt.Sprint(si)) && total[k] < v {
							w.fail(fmt.Errorf("goroutine %d: a count was %d in a snapshot, but %d in a later one", id, v, total[k]))
						}
					}
					for k, v := range total {
						last[k] = v
					}
					snaps = append(snaps, sn)
				}
				continue
			case "http":
				if x.poll != nil {
					rw := httptest.NewRecorder()
					x.poll.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
					var v aggm.HealthResponse
					if err := json.Unmarshal(rw.Body.Bytes(), &v); err != nil || rw.Code != http.StatusOK {
						w.fail(fmt.Errorf("goroutine %d: GET /health: %d, %v", id, rw.Code, err))
					}
				}
				continue
			case "drain":
				if x.statsd != nil {
					x.statsd.Drain()
				}
				continue
			case "sleep":
				time.Sleep(time.Duration(s.N+1) * time.Millisecond)
				now = now.Add(time.Duration(s.N+1) * time.Millisecond)
				continue
			default:
				runtime.Gosched()
				continue
			}
			out[si] = append(out[si], em)
		}
	}
	for _, s := range snaps {
		for i, iv := range s.ivs {
			var e core.Errs
			aggm.Diff(&e, "a snapshot taken while others emit, later", aggm.From(iv), s.copy[i])
			if err := e.Err(); err != nil {
				w.fail(err)
			}
		}
	}
	return out
}

// kinds of lists: what it got must be what was emitted, in each goroutine's order.
func compareLists(what string, got []string, want []string, order map[int][]string) error {
	count := map[string]int{}
	for _, s := range want {
		count[s]++
	}
	seen := map[string]int{}
	for _, s := range got {
		if seen[s]++; seen[s] > count[s] {
			return fmt.Errorf("%s: %q came %d times, want %d", what, s, seen[s], count[s])
		}
	}
	for _, s := range want {
		if seen[s] < count[s] {
			return fmt.Errorf("%s: %q came %d times, want %d", what, s, seen[s], count[s])
		}
	}
	for id, o := range order {
		i := 0
		mine := map[string]bool{}
		for _, s := range o {
			mine[s] = true
		}
		for _, s := range got {
			if !mine[s] {
				continue
			}
			if i < len(o) && o[i] != s {
				return fmt.Errorf("%s: goroutine %d emitted %q next, but %q comes first", what, id, o[i], s)
			}
			i++
		}
	}
	return nil
}

// lists renders all emissions, and those of each goroutine that can be told from the others'.
func lists(ems []emission, render func(e emission) []string) (all []string, order map[int][]string) {
	order = map[int][]string{}
	for _, e := range ems {
		for _, s := range render(e) {
			all = append(all, s)
			if e.tag != "" && strings.Contains(s, e.tag) {
				order[e.w] = append(order[e.w], s)
			}
		}
	}
	return
}

func text(e emission) string {
	s := e.Kind + " " + e.Job + " " + e.Event
	switch e.Kind {
	case "eventErr":
		s += fmt.Sprintf(" %T", e.Err)
		s += " " + e.Err.Error()
	case "timing":
		s += fmt.Sprint(" ", e.Nanos)
	case "gauge":
		s += fmt.Sprint(" ", e.Value)
	case "complete":
		s += fmt.Sprint(" ", int(e.Status), " ", e.Nanos)
	}
	return s + " " + fmt.Sprint(len(e.Kvs)) + fmt.Sprint(e.Kvs)
}

// blind removes what is not known: the text of stacks.
func blind(e emission) emission {
	if _, ok := e.Kvs["stack"]; ok && e.Event == "panic" {
		m := map[string]string{}
		for k, v := range e.Kvs {
			m[k] = v
		}
		m["stack"] = ""
		e.Kvs = m
	}
	if e.Kind == "eventErr" && e.Err != nil {
		if _, ok := e.Err.(*health.MutedError); !ok {
			e.Err = &health.UnmutedError{Err: errors.New(e.Err.Error())}
		}
	}
	return e
}

func to(s health.Sink, e emission) {
	switch e.Kind {
	case "event":
		s.EmitEvent(e.Job, e.Event, e.Kvs)
	case "eventErr":
		s.EmitEventErr(e.Job, e.Event, e.Err, e.Kvs)
	case "timing":
		s.EmitTiming(e.Job, e.Event, e.Nanos, e.Kvs)
	case "gauge":
		s.EmitGauge(e.Job, e.Event, e.Value, e.Kvs)
	case "complete":
		s.EmitComplete(e.Job, e.Status, e.Nanos, e.Kvs)
	}
}

// noStack cuts the stacks of panics, whose text isn't known, and the time out of a written line.
func noStack(s string) string {
	if i := strings.Index(s, "goroutine "); i >= 0 {
		j := strings.LastIndexAny(s, "]\"")
		if k := strings.Index(s[i:], " stream:"); k > 0 {
			j = i + k
		}
		if k := strings.Index(s[i:], "\",\"stream"); k > 0 {
			j = i + k
		}
		if j > i {
			s = s[:i] + s[j:]
		}
	}
	return s
}

func noTime(s string) string {
	if strings.HasPrefix(s, "[") {
		if i := strings.Index(s, "]"); i > 0 {
			return s[i:]
		}
	}
	if i := strings.Index(s, "\"Timestamp\":\""); i > 0 {
		if j := strings.Index(s[i+13:], "\""); j > 0 {
			return s[:i] + s[i+13+j:]
		}
	}
	return s
}

func (w *world) check(si int, ems []emission, tr *httpx.Transport) error {
	x := w.sinks[si]
	if x.rec != nil {
		var got []string
		for _, c := range x.rec.Calls {
			if c.Kind == "eventErr" {
				if _, ok := c.Err.(*health.UnmutedError); ok {
					// Marked before iff it isn't the first time.
					got = append(got, text(blind(emission{Call: c}))+fmt.Sprint(c.Emitted))
					continue
				}
			}
			got = append(got, text(blind(emission{Call: c})))
		}
		all, order := lists(ems, func(e emission) []string {
			s := text(blind(e))
			if _, ok := e.Err.(*health.MutedError); e.Kind == "eventErr" && !ok {
				s += fmt.Sprint(!e.first)
			}
			return []string{s}
		})
		if err := compareLists("recording sink", got, all, order); err != nil {
			return err
		}
	}
	for i, tw := range []*tearing{x.text, x.js} {
		if tw == nil {
			continue
		}
		what := []string{"WriterSink", "JsonWriterSink"}[i]
		if tw.torn != "" {
			return fmt.Errorf("%s: %s", what, tw.torn)
		}
		var got []string
		for _, l := range tw.lines {
			got = append(got, noStack(noTime(l)))
		}
		all, order := lists(ems, func(e emission) []string {
			alone := &tearing{}
			var s health.Sink = &health.WriterSink{Writer: alone}
			if i == 1 {
				s = &health.JsonWriterSink{Writer: alone}
			}
			e.Kvs = copied(e.Kvs)
			if e.Event == "panic" {
				e.Kvs["stack"] = "goroutine "
			}
			to(s, e)
			for i, l := range alone.lines {
				alone.lines[i] = noStack(noTime(l))
			}
			return alone.lines
		})
		if err := compareLists(what, got, all, order); err != nil {
			return err
		}
	}
	if x.poll != nil {
		want := aggm.New(time.Time{})
		gauges := map[string]map[int]float64{}
		for _, e := range ems {
			a := aggm.Emit{Kind: e.Kind, Job: core.Str(e.Job), Event: core.Str(e.Event), Nanos: e.Nanos, Value: core.F64(e.Value), Status: int(e.Status), Err: "x"}
			if e.Err != nil {
				a.Err = e.Err.Error()
			}
			want.Add(a)
			if e.Kind == "gauge" {
				for _, k := range []string{"/" + e.Event, e.Job + "/" + e.Event} {
					if gauges[k] == nil {
						gauges[k] = map[int]float64{}
					}
					gauges[k][e.w] = e.Value
				}
			}
		}
		got := aggm.New(time.Time{})
		ivs := x.poll.GetMetrics()
		for _, iv := range ivs {
			got.Merge(aggm.From(iv))
		}
		var e core.Errs
		aggm.DiffG(&e, "polling sink", got, want, func(job string, isJob bool, key string) (vs []float64) {
			if !isJob {
				job = ""
			}
			for _, v := range gauges[job+"/"+key] {
				vs = append(vs, v)
			}
			return
		})
		if err := e.Err(); err != nil {
			return err
		}
	}
	if x.statsd != nil {
		collect := func(r *statsd.Recv, n int) ([]string, error) {
			var lines []string
			var bad error
			r.Await(3*time.Second, func([][]byte) bool {
				lines, bad = r.Lines()
				return bad != nil || len(lines) >= n
			})
			if bad != nil {
				return nil, r.Lost(bad)
			}
			return lines, nil
		}
		r := statsd.Fresh()
		defer r.Close()
		alone, err := health.NewStatsDSink(r.Addr(), nil)
		if err != nil {
			return core.Inconclusive("NewStatsDSink: %v", err)
		}
		n := 0
		for _, e := range ems {
			to(alone, e)
			if n++; e.Kind != "complete" {
				n++
			}
		}
		alone.Drain()
		alone.Stop()
		want, err := collect(r, n)
		if err != nil {
			return err
		}
		if len(want) != n {
			return core.Inconclusive("%d of %d lines of the sequential run arrived", len(want), n)
		}
		x.statsd.Drain()
		got, err := collect(x.recv, n)
		if err != nil {
			return err
		}
		order := map[int][]string{}
		i := 0
		for _, e := range ems {
			k := 2
			if e.Kind == "complete" {
				k = 1
			}
			for _, l := range want[i : i+k] {
				if t := strings.NewReplacer("-", "$").Replace(e.tag); t != "" && strings.Contains(l, t) {
					order[e.w] = append(order[e.w], l)
				}
			}
			i += k
		}
		if err := compareLists("StatsD", got, want, order); err != nil {
			return x.recv.Lost(err)
		}
	}
	for _, u := range x.bugURL {
		var got []string
		for _, r := range tr.Reqs() {
			if r.URL != u {
				continue
			}
			var p struct {
				Events []struct {
					Context    string
					Exceptions []struct{ ErrorClass, Message string }
				}
			}
			if err := json.Unmarshal(r.Body, &p); err != nil || len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
				return fmt.Errorf("Bugsnag: a report is %.300q (%v)", r.Body, err)
			}
			e := p.Events[0]
			got = append(got, e.Context+"|"+e.Exceptions[0].ErrorClass+"|"+e.Exceptions[0].Message)
		}
		all, order := lists(ems, func(e emission) []string {
			if e.Kind != "eventErr" || e.muted || !e.first {
				return nil
			}
			return []string{e.Job + "|" + e.Event + "|" + e.Err.Error()}
		})
		if err := compareLists("Bugsnag", got, all, order); err != nil {
			return err
		}
	}
	if x.librato != nil {
		got, err := posts(tr, x.user)
		if err != nil {
			return err
		}
		alone := librato.New(x.user+"alone", "key", "p")
		for _, e := range ems {
			to(alone, e)
		}
		time.Sleep(31 * time.Second)
		synctest.Wait()
		alone.Stop()
		want, err := posts(tr, x.user+"alone")
		if err != nil {
			return err
		}
		if err := diff(got, want); err != nil {
			return err
		}
	}
	return nil
}

func copied(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type metric struct {
	Value *float64
	Count *float64
	Sum   *float64
	Min   *float64
	Max   *float64
	Sq    *float64 `json:"sum_squares"`
}

func (m metric) String() string {
	b, _ := json.Marshal(m)
	return string(b)
}

// posts adds up all posts of a user.
func posts(tr *httpx.Transport, user string) (map[string]metric, error) {
	all := map[string]metric{}
	for _, r := range tr.Reqs() {
		if r.User != user {
			continue
		}
		var p struct{ Gauges map[string]metric }
		if err := json.Unmarshal(r.Body, &p); err != nil {
			return nil, fmt.Errorf("Librato: a post is %.300q (%v)", r.Body, err)
		}
		for k, g := range p.Gauges {
			a, ok := all[k]
			if !ok {
				all[k] = g
				continue
			}
			add := func(x, y *float64, f func(a, b float64) float64) *float64 {
				if x == nil || y == nil {
					return nil
				}
				v := f(*x, *y)
				return &v
			}
			plus := func(a, b float64) float64 { return a + b }
			all[k] = metric{Value: add(a.Value, g.Value, plus), Count: add(a.Count, g.Count, plus), Sum: add(a.Sum, g.Sum, plus), Sq: add(a.Sq, g.Sq, plus),
				Min: add(a.Min, g.Min, func(a, b float64) float64 { return min(a, b) }), Max: add(a.Max, g.Max, func(a, b float64) float64 { return max(a, b) })}
		}
	}
	return all, nil
}

func diff(got, want map[string]metric) error {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	near := func(a, b *float64) bool {
		if a == nil || b == nil {
			return a == b
		}
		d := *a - *b
		return d <= 1e-9*(*b) && -d <= 1e-9*(*b) // all are positive
	}
	for _, k := range ks {
		g, w := got[k], want[k]
		if !near(g.Value, w.Value) || !near(g.Count, w.Count) || !near(g.Sum, w.Sum) || !near(g.Min, w.Min) || !near(g.Max, w.Max) || !near(g.Sq, w.Sq) {
			return fmt.Errorf("Librato: %q is %v, want %v", k, g, w)
		}
	}
	return nil
}

func (c Case) run() error {
	if len(c.Sinks) == 0 || len(c.Workers) == 0 {
		return nil
	}
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	tr := &httpx.Transport{Limit: 20000}
	defer tr.Install()()
	w := &world{c: c, kvs: map[string]string{"shared": "map", "stream": "shared"}, t0: time.Now()}
	for i := range c.Sinks {
		st := health.NewStream()
		x := &sinks{}
		w.streams, w.sinks = append(w.streams, st), append(w.sinks, x)
		defer x.stop()
		if err := x.attach(st, c.Sinks[i], i); err != nil {
			return err
		}
		if i < len(c.StreamK) {
			for _, kv := range c.StreamK[i] {
				st.KeyValue(string(kv.K), string(kv.V))
			}
		}
		var jobs []*health.Job
		for j, n := range jobNames {
			job := st.NewJob(n)
			if j < len(c.JobK) {
				for _, kv := range c.JobK[j] {
					job.KeyValue(string(kv.K), string(kv.V))
				}
			}
			jobs = append(jobs, job)
		}
		w.jobs = append(w.jobs, jobs)
	}
	// Errors that were returned before. The frames of some have been asked for.
	ems := make([][]emission, len(w.streams))
	for i := 0; i < 3; i++ {
		err := errors.New(fmt.Sprintf("shared%d", i))
		em := emission{w: -1, first: true, Call: rec.Call{Kind: "eventErr", Job: "general", Event: "setup", Err: err, Kvs: c.merged(0, 0, nil)}}
		if i == 2 {
			err = health.Mute(err)
			em.muted, em.Err = true, err
		}
		ret := w.streams[0].EventErr("setup", err)
		ems[0] = append(ems[0], em)
		w.shared = append(w.shared, ret)
		var fs []stack.Frame
		if u, ok := ret.(*health.UnmutedError); ok && i == 0 {
			fs = u.Stack.Frames()
		}
		w.frames = append(w.frames, fs)
	}
	var wg sync.WaitGroup
	results := make([][][]emission, len(c.Workers))
	begin := make(chan bool)
	for id, steps := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			results[id] = w.worker(id, steps)
		}()
	}
	close(begin)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		return fmt.Errorf("the goroutines have not ended after 10 minutes")
	}
	for _, r := range results {
		for si := range r {
			ems[si] = append(ems[si], r[si]...)
		}
	}
	// everything that is queued is processed, and Librato posts
	time.Sleep(31 * time.Second)
	synctest.Wait()
	if w.failed != nil {
		return w.failed
	}
	for si := range w.streams {
		if err := w.check(si, ems[si], tr); err != nil {
			return fmt.Errorf("stream %d: %w", si, err)
		}
	}
	return nil
}

func gen(t *rapid.T) Case {
	c := Case{Procs: core.Pick(t, "procs", 2, 4, 4, 8, 3)}
	kinds := []string{"rec", "poll", "poll", "text", "json", "statsd", "bugsnag", "bugsnag", "librato"}
	for i := 1 + core.Uniform(t, "second", 2); i > 0; i-- {
		var ks []string
		seen := map[string]int{}
		for n := 1 + core.Uniform(t, "sinks", 5); n > 0; n-- {
			k := core.Pick(t, "sink", kinds...)
			if seen[k]++; seen[k] == 1 || k == "bugsnag" && seen[k] == 2 {
				ks = append(ks, k)
			}
		}
		c.Sinks = append(c.Sinks, ks)
		var kv core.Kvs
		if core.Chance(t, "streamKv", 1, 2) {
			kv = core.Kvs{{K: "stream", V: "s"}}
		}
		c.StreamK = append(c.StreamK, kv)
	}
	for range jobNames {
		var kv core.Kvs
		if core.Chance(t, "jobKv", 1, 2) {
			kv = core.Kvs{{K: "j", V: "k"}}
		}
		c.JobK = append(c.JobK, kv)
	}
	ops := []string{"event", "event", "err", "err", "again", "timing", "gauge", "complete", "run", "frames", "get", "http", "drain", "yield", "sleep"}
	// a few kinds of steps only, so that they meet
	if core.Chance(t, "few", 2, 3) {
		var few []string
		for n := 1 + core.Uniform(t, "fewN", 4); n > 0; n-- {
			few = append(few, core.Pick(t, "fewOp", ops...))
		}
		ops = append(few, "yield")
	}
	for n := 2 + core.Uniform(t, "workers", 5); n > 0; n-- {
		var steps []Step
		for k := core.Len(t, "steps", 1, 25); k > 0; k-- {
			s := Step{Op: core.Pick(t, "op", ops...), On: core.Uniform(t, "on", 4) - 1, Ev: core.Uniform(t, "ev", names), N: int64(core.Uniform(t, "n", 10)), Kv: core.Uniform(t, "kv", 3), S: core.Uniform(t, "s", len(c.Sinks))}
			if core.Chance(t, "rep", 1, 4) && s.Op != "sleep" && s.Op != "http" {
				s.Rep = 2 + core.Uniform(t, "reps", 30)
			}
			steps = append(steps, s)
		}
		c.Workers = append(c.Workers, steps)
	}
	return c
}

func TestC12_mixed(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true, Leaks: true,
		Gen: gen,
		Run: Case.run,
		Classify: func(c Case) (bool, []string) {
			var l []string
			seen := map[string]bool{}
			for _, s := range c.Sinks {
				for _, k := range s {
					if !seen[k] {
						seen[k] = true
						l = append(l, "sink:"+k)
					}
				}
			}
			emits := 0
			for _, wk := range c.Workers {
				for _, s := range wk {
					switch s.Op {
					case "frames", "get", "http", "drain", "yield", "sleep":
					default:
						emits++
					}
					if !seen["op:"+s.Op] {
						seen["op:"+s.Op] = true
						l = append(l, "op:"+s.Op)
					}
				}
			}
			return emits >= 2, l
		},
	})
}
