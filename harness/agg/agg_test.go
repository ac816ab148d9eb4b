package agg

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
)

func caseLabels(c Case) (emits, intervals, gets int, labels []string) {
	moved := false
	neg := false
	bulk := false
	for _, op := range c.Ops {
		switch op.Op {
		case "emit":
			emits++
			if moved || emits == 1 {
				intervals++
				moved = false
			}
			if op.E.Rep > 4096 {
				bulk = true
			}
			neg = neg || op.E.Nanos < 0
		case "sleep":
			if op.Ns >= c.Interval {
				moved = true
			}
			if op.Ns > c.Retain {
				labels = add(labels, "idle>retain")
			}
		case "boundary":
			moved = moved || op.Ns >= 0
			labels = add(labels, "boundary")
		case "get":
			gets++
		}
	}
	if bulk {
		labels = append(labels, "burst>4096")
	}
	if c.Retain < c.Interval {
		labels = append(labels, "retain<interval")
	}
	if intervals > 1 {
		labels = append(labels, "several-intervals")
	}
	if int64(intervals)*c.Interval > c.Retain {
		labels = append(labels, "window-slid")
	}
	return
}

func add(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func TestC06_exact(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return genCase(t, genOpts{Opts: aggm.Opts{Strange: true, BadUTF8: true, NonFinite: true, MaxRep: 9000, Negative: true}, maxOps: 200, gets: 6, sleeps: 14, maxIdleIntervals: 4})
		},
		Run: func(c Case) error {
			h := c.run()
			var e core.Errs
			for _, s := range h.snaps {
				h.checkContents(&e, s, s.copied)
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			emits, intervals, _, l := caseLabels(c)
			return emits >= 3 && intervals >= 1, l
		},
	})
}

func TestC07_window(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return genCase(t, genOpts{Opts: aggm.Opts{Strange: true, Plain: true}, maxOps: 80, gets: 20, sleeps: 45, maxIdleIntervals: 30})
		},
		Run: func(c Case) error {
			h := c.run()
			var e core.Errs
			for _, s := range h.snaps {
				var starts []time.Time
				for _, iv := range s.copied {
					starts = append(starts, iv.Start)
				}
				h.checkWindow(&e, s, starts)
				h.checkContents(&e, s, s.copied)
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			slept := int64(0)
			_, _, gets, l := caseLabels(c)
			for _, op := range c.Ops {
				if op.Op == "sleep" {
					slept += op.Ns
				} else if op.Op == "boundary" {
					slept += c.Interval / 2
				}
			}
			if slept > c.Retain {
				l = append(l, "time>retain")
			}
			return gets >= 2 && slept > c.Interval, l
		},
	})
}

func TestC08_snapshots(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return genCase(t, genOpts{Opts: aggm.Opts{Strange: true, Plain: core.Chance(t, "plain", 2, 3), BadUTF8: true, MaxRep: 50}, maxOps: 120, gets: 20, sleeps: 12, maxIdleIntervals: 3})
		},
		Run: func(c Case) error {
			h := c.run()
			var e core.Errs
			for _, s := range h.snaps {
				for i, ia := range s.live {
					now := aggm.From(ia)
					was := s.copied[i]
					aggm.Diff(&e, fmt.Sprintf("snapshot taken at op %d, looked at again at the end: interval %d", s.op, i), now, was)
					if now.Serial != was.Serial || !now.Start.Equal(was.Start) {
						e.Addf("snapshot taken at op %d: interval %d was %v with serial number %d and is now %v with %d", s.op, i, was.Start, was.Serial, now.Start, now.Serial)
					}
				}
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			emitsAfter, seen := 0, false
			for _, op := range c.Ops {
				if op.Op == "get" {
					seen = true
				} else if op.Op == "emit" && seen {
					emitsAfter++
				}
			}
			_, _, _, l := caseLabels(c)
			return emitsAfter > 0, l
		},
	})
}

func TestC09_serial(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return genCase(t, genOpts{Opts: aggm.Opts{Strange: true, Plain: core.Chance(t, "plain", 2, 3), MaxRep: 300, NonFinite: true}, maxOps: 120, gets: 25, sleeps: 20, maxIdleIntervals: 3})
		},
		Run: func(c Case) error {
			h := c.run()
			var e core.Errs
			type seen struct {
				serial         int64
				changes, maybe int
				iv             *aggm.Interval
				op             int
			}
			last := map[int64]seen{}
			for _, s := range h.snaps {
				for _, iv := range s.copied {
					k := iv.Start.UnixNano()
					cur := seen{serial: iv.Serial, iv: iv, op: s.op}
					if w := s.want[k]; w != nil {
						cur.changes, cur.maybe = w.Changes, w.Maybe
					}
					if l, ok := last[k]; ok {
						switch {
						case cur.changes > l.changes:
							if cur.serial <= l.serial {
								e.Addf("interval %v: serial number %d at op %d, %d at op %d, although %d emissions lie between", iv.Start, l.serial, l.op, cur.serial, cur.op, cur.changes-l.changes)
							}
						case cur.maybe == l.maybe:
							if cur.serial != l.serial {
								e.Addf("interval %v: serial number %d at op %d, %d at op %d, although nothing was emitted", iv.Start, l.serial, l.op, cur.serial, cur.op)
							}
						}
						if cur.serial == l.serial {
							aggm.Diff(&e, fmt.Sprintf("interval %v with unchanged serial number", iv.Start), iv, l.iv)
						}
					}
					last[k] = cur
				}
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			emits, _, gets, l := caseLabels(c)
			return emits > 0 && gets > 1, l
		},
	})
}

func TestC11_http(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := genCase(t, genOpts{Opts: aggm.Opts{Strange: true, NonFinite: true, MaxRep: 20, Negative: true}, maxOps: 80, gets: 1, https: 14, sleeps: 8, maxIdleIntervals: 3})
			c.Ops = append(c.Ops, Op{Op: "http", Path: "/health"})
			return c
		},
		Run: func(c Case) error {
			h := c.run()
			var e core.Errs
			for _, r := range h.https {
				if !strings.HasPrefix(r.ct, "application/json") {
					e.Addf("op %d: content type %q for %q", r.snapshot.op, r.ct, r.op.Path)
				}
				if r.op.Path != "/health" {
					var v map[string]interface{}
					if r.code != 404 {
						e.Addf("op %d: status %d for path %q, want 404", r.snapshot.op, r.code, r.op.Path)
					} else if err := aggm.Decode(r.body, &v); err != nil || v["error"] == nil {
						e.Addf("op %d: the 404 body is no JSON error: %q", r.snapshot.op, r.body)
					}
					continue
				}
				if r.code != 200 {
					e.Addf("op %d: status %d for /health: %.300q", r.snapshot.op, r.code, r.body)
					continue
				}
				var doc aggm.HealthResponse
				if err := aggm.Decode(r.body, &doc); err != nil {
					e.Addf("op %d: /health: %v", r.snapshot.op, err)
					continue
				}
				if doc.InstanceID != health.Identifier || doc.InstanceID == "" {
					e.Addf("op %d: instance id %q, want %q", r.snapshot.op, doc.InstanceID, health.Identifier)
				}
				if doc.IntervalDuration != c.Interval {
					e.Addf("op %d: interval length %d, want %d", r.snapshot.op, doc.IntervalDuration, c.Interval)
				}
				var starts []time.Time
				for i, iv := range doc.Aggregations {
					if iv == nil {
						return fmt.Errorf("op %d: aggregation %d is null", r.snapshot.op, i)
					}
					starts = append(starts, iv.Start)
				}
				h.checkWindow(&e, r.snapshot, starts)
				h.checkContents(&e, r.snapshot, doc.Aggregations)
				// Everything a poller needs is there under its documented name, even if empty.
				var raw struct {
					Aggregations []map[string]json.RawMessage `json:"aggregations"`
				}
				if err := json.Unmarshal(r.body, &raw); err == nil {
					for _, a := range raw.Aggregations {
						for _, k := range []string{"interval_start", "serial_number", "jobs", "timers", "gauges", "events", "event_errs"} {
							if v, ok := a[k]; !ok || string(v) == "null" {
								e.Addf("op %d: an aggregation lacks %q", r.snapshot.op, k)
							}
						}
					}
				}
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			emits, _, _, l := caseLabels(c)
			wild, odd := false, false
			for _, op := range c.Ops {
				if op.E != nil {
					wild = wild || strings.ContainsAny(string(op.E.Job)+string(op.E.Event), "%\"\\\n<&")
					odd = odd || float64(op.E.Value) != float64(op.E.Value)
				}
			}
			if wild {
				l = append(l, "wild-names")
			}
			if odd {
				l = append(l, "NaN")
			}
			return emits > 0, l
		},
	})
}

// ServerCase is served over a real socket.
type ServerCase struct {
	Emits []aggm.Emit `json:"emits"`
}

func TestC11_server(t *testing.T) {
	core.Check(t, core.Sub[ServerCase]{
		Gen: func(t *rapid.T) ServerCase {
			var c ServerCase
			n := core.Uniform(t, "n", 30)
			for i := 0; i < n; i++ {
				c.Emits = append(c.Emits, aggm.Gen(t, aggm.Opts{Strange: true, NonFinite: true}))
			}
			return c
		},
		Run: func(c ServerCase) error {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return core.Inconclusive("cannot listen: %v", err)
			}
			addr := l.Addr().String()
			l.Close()
			sink := health.NewJsonPollingSink(time.Hour*24*365, time.Hour*24*365)
			sink.StartServer(addr)
			want := aggm.New(time.Time{})
			for _, e := range c.Emits {
				want.Add(e)
				e.To(sink, nil)
			}
			tr := &http.Transport{DisableKeepAlives: true}
			client := &http.Client{Timeout: 20 * time.Second, Transport: tr}
			var e core.Errs
			// the sink processes emissions in the background
			for try := 0; ; try++ {
				resp, err := client.Get("http://" + addr + "/health")
				if err != nil {
					if try > 200 {
						return core.Inconclusive("cannot connect: %v", err)
					}
					time.Sleep(20 * time.Millisecond)
					continue
				}
				body, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					return core.Inconclusive("cannot read: %v", err)
				}
				e = core.Errs{}
				var doc aggm.HealthResponse
				if resp.StatusCode != 200 {
					e.Addf("status %d", resp.StatusCode)
				} else if err := aggm.Decode(body, &doc); err != nil {
					e.Addf("%v", err)
				} else if len(doc.Aggregations) != 1 {
					e.Addf("%d intervals", len(doc.Aggregations))
				} else {
					aggm.Diff(&e, "over HTTP", doc.Aggregations[0], want)
				}
				if e.Err() == nil || try > 250 {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			if resp, err := client.Get("http://" + addr + "/nope"); err == nil {
				resp.Body.Close()
				if resp.StatusCode != 404 {
					e.Addf("status %d for another path", resp.StatusCode)
				}
			}
			sink.ShutdownServer()
			return e.Err()
		},
		Classify: func(c ServerCase) (bool, []string) { return len(c.Emits) > 0, nil },
	})
}

// MergeCase: some aggregations, and a way to merge them.
type MergeCase struct {
	Parts [][]aggm.Emit `json:"parts"`
	JSON  []bool        `json:"json"`  // decoded from JSON, as healthd does
	Empty bool          `json:"empty"` // start from an empty aggregation (else from a clone of the first)
	Tree  []int         `json:"tree"`  // each step merges the right neighbour of this one into it
	Then  []aggm.Emit   `json:"then"`  // merged in at the very end, to see that sources stay as they are
}

// collect builds an aggregation of the emissions through a polling sink.
func collect(es []aggm.Emit, viaJSON bool) (*health.IntervalAggregation, error) {
	sink := health.NewJsonPollingSink(time.Hour, time.Hour)
	for _, e := range es {
		e.To(sink, nil)
	}
	synctest.Wait()
	m := sink.GetMetrics()
	sink.ShutdownServer()
	if len(m) != 1 {
		return nil, fmt.Errorf("a new sink has %d intervals", len(m))
	}
	if viaJSON {
		b, err := json.Marshal(m[0])
		if err != nil {
			return nil, err
		}
		ia := &health.IntervalAggregation{}
		if err := json.Unmarshal(b, ia); err != nil {
			return nil, err
		}
		return ia, nil
	}
	return m[0], nil
}

func scribble(ia *health.IntervalAggregation) {
	ia.IntervalStart = ia.IntervalStart.Add(time.Hour)
	ia.SerialNumber += 1000
	tm := func(t *health.TimerAggregation) {
		t.Count, t.NanosSum, t.NanosSumSquares, t.NanosMin, t.NanosMax = t.Count+77, t.NanosSum+77, t.NanosSumSquares+77, t.NanosMin-77, t.NanosMax+77
	}
	maps := func(ts map[string]*health.TimerAggregation, gs map[string]float64, es map[string]int64, er map[string]*health.ErrorCounter) {
		for k := range ts {
			tm(ts[k])
		}
		for k := range gs {
			gs[k] += 77.5
		}
		for k := range es {
			es[k] += 77
		}
		for k := range er {
			er[k].Count += 77
		}
		ts["scribbled"] = &health.TimerAggregation{Count: 1}
		gs["scribbled"] = 1
		es["scribbled"] = 1
		er["scribbled"] = &health.ErrorCounter{Count: 1}
	}
	maps(ia.Timers, ia.Gauges, ia.Events, ia.EventErrs)
	for _, j := range ia.Jobs {
		maps(j.Timers, j.Gauges, j.Events, j.EventErrs)
		tm(&j.TimerAggregation)
		j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk = j.CountSuccess+1, j.CountValidationError+1, j.CountPanic+1, j.CountError+1, j.CountJunk+1
	}
	ia.Jobs["scribbled"] = &health.JobAggregation{}
}

func genParts(t *rapid.T, min, max int) (parts [][]aggm.Emit) {
	n := min + core.Uniform(t, "parts", max-min+1)
	plain := core.Chance(t, "plain", 2, 3)
	for i := 0; i < n; i++ {
		m := core.Len(t, "emits", 0, 60)
		es := []aggm.Emit{}
		for k := 0; k < m; k++ {
			es = append(es, aggm.Gen(t, aggm.Opts{Strange: true, Plain: plain, MaxRep: 20, Negative: true}))
		}
		parts = append(parts, es)
	}
	return
}

func TestC10_merge(t *testing.T) {
	core.Check(t, core.Sub[MergeCase]{
		Bubble: true,
		Gen: func(t *rapid.T) MergeCase {
			c := MergeCase{Parts: genParts(t, 2, 5), Empty: core.Chance(t, "empty", 1, 2)}
			for range c.Parts {
				c.JSON = append(c.JSON, core.Chance(t, "json", 1, 2))
			}
			for i := len(c.Parts); i > 1; i-- {
				c.Tree = append(c.Tree, core.Uniform(t, "tree", i-1))
			}
			n := core.Uniform(t, "then", 6)
			for i := 0; i < n; i++ {
				c.Then = append(c.Then, aggm.Gen(t, aggm.Opts{Strange: true, Plain: true}))
			}
			return c
		},
		Run: func(c MergeCase) error {
			var e core.Errs
			type part struct {
				ia    *health.IntervalAggregation
				model *aggm.Interval
			}
			var srcs []*health.IntervalAggregation
			var before []*aggm.Interval
			var list []part
			for i, es := range c.Parts {
				ia, err := collect(es, c.JSON[i])
				if err != nil {
					return err
				}
				m := aggm.New(time.Time{})
				for _, x := range es {
					m.Add(x)
				}
				srcs = append(srcs, ia)
				before = append(before, aggm.From(ia))
				// merging mutates, so work on accumulators
				var acc *health.IntervalAggregation
				if c.Empty {
					acc = health.NewIntervalAggregation(ia.IntervalStart)
					s0 := acc.SerialNumber
					acc.Merge(ia)
					if acc.SerialNumber == s0 {
						e.Addf("merging into an empty aggregation left its serial number at %d", s0)
					}
				} else {
					acc = ia.Clone()
				}
				list = append(list, part{acc, m})
			}
			for _, at := range c.Tree {
				if at+1 >= len(list) {
					continue
				}
				a, b := list[at], list[at+1]
				s0, st0 := a.ia.SerialNumber, a.ia.IntervalStart
				bBefore := aggm.From(b.ia)
				a.ia.Merge(b.ia)
				a.model.Merge(b.model)
				if a.ia.SerialNumber == s0 {
					e.Addf("merging left the serial number at %d", s0)
				}
				if !a.ia.IntervalStart.Equal(st0) {
					e.Addf("merging changed the start from %v to %v", st0, a.ia.IntervalStart)
				}
				bAfter := aggm.From(b.ia)
				aggm.Diff(&e, "merged-in aggregation", bAfter, bBefore)
				if bAfter.Serial != bBefore.Serial {
					e.Addf("merging changed the serial number of the merged-in aggregation")
				}
				aggm.Diff(&e, "result", aggm.From(a.ia), a.model)
				list = append(list[:at+1], list[at+2:]...)
			}
			then, err := collect(c.Then, false)
			if err != nil {
				return err
			}
			for _, p := range list {
				p.ia.Merge(then)
				m := aggm.New(time.Time{})
				for _, x := range c.Then {
					m.Add(x)
				}
				p.model.Merge(m)
				aggm.Diff(&e, "result", aggm.From(p.ia), p.model)
				scribble(p.ia)
			}
			for i, ia := range srcs {
				now := aggm.From(ia)
				aggm.Diff(&e, fmt.Sprintf("source %d, after the result was changed", i), now, before[i])
				if now.Serial != before[i].Serial || !now.Start.Equal(before[i].Start) {
					e.Addf("source %d: serial number or start changed", i)
				}
			}
			return e.Err()
		},
		Classify: func(c MergeCase) (bool, []string) {
			n := 0
			common := map[string]int{}
			onlyEvents := false
			for _, es := range c.Parts {
				if len(es) > 0 {
					n++
				}
				seen := map[string]bool{}
				compl := map[string]bool{}
				for _, x := range es {
					seen[string(x.Job)] = true
					if x.Kind == "complete" {
						compl[string(x.Job)] = true
					}
				}
				for k := range seen {
					common[k]++
					if !compl[k] {
						onlyEvents = true
					}
				}
			}
			shared := false
			for _, v := range common {
				shared = shared || v > 1
			}
			var l []string
			if shared {
				l = append(l, "shared-jobs")
			}
			if onlyEvents {
				l = append(l, "job-without-completions")
			}
			return n >= 2 && shared, l
		},
	})
}

// CloneCase: an aggregation, cloned, then one of the two changed.
type CloneCase struct {
	Emits []aggm.Emit `json:"emits"`
	More  []aggm.Emit `json:"more"`
	JSON  bool        `json:"json"`
	Which string      `json:"which"` // original or clone is changed
	How   string      `json:"how"`   // merge, scribble
}

func TestC08_clone(t *testing.T) {
	core.Check(t, core.Sub[CloneCase]{
		Bubble: true,
		Gen: func(t *rapid.T) CloneCase {
			p := genParts(t, 2, 2)
			return CloneCase{p[0], p[1], core.Chance(t, "json", 1, 3), core.Pick(t, "which", "original", "clone"), core.Pick(t, "how", "merge", "scribble")}
		},
		Run: func(c CloneCase) error {
			var e core.Errs
			a, err := collect(c.Emits, c.JSON)
			if err != nil {
				return err
			}
			more, err := collect(c.More, false)
			if err != nil {
				return err
			}
			was := aggm.From(a)
			b := a.Clone()
			got := aggm.From(b)
			aggm.Diff(&e, "clone", got, was)
			if got.Serial != was.Serial || !got.Start.Equal(was.Start) {
				e.Addf("the clone has start %v and serial number %d, want %v and %d", got.Start, got.Serial, was.Start, was.Serial)
			}
			ch, other := a, b
			if c.Which == "clone" {
				ch, other = b, a
			}
			if c.How == "merge" {
				ch.Merge(more)
			} else {
				scribble(ch)
			}
			now := aggm.From(other)
			aggm.Diff(&e, "after changing the "+c.Which+", the other", now, was)
			if now.Serial != was.Serial || !now.Start.Equal(was.Start) {
				e.Addf("changing the %s changed serial number or start of the other", c.Which)
			}
			return e.Err()
		},
		Classify: func(c CloneCase) (bool, []string) {
			return len(c.Emits) > 0 && (c.How == "scribble" || len(c.More) > 0), []string{c.How, c.Which}
		},
	})
}
