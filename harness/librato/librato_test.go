// Package librato checks the Librato sink: what it posts, as seen by a recording transport, against a model of its
// windows.
package librato

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/librato"
	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
	"verif/harness/httpx"
)

func init() { core.Quiet() }

const period = 15 * time.Second

// Op emits or sleeps.
type Op struct {
	Op string    `json:"op"` // emit, sleep
	E  aggm.Emit `json:"e"`
	Ns int64     `json:"ns,omitempty"`
}

// Case is a history of one sink.
type Case struct {
	User    core.Str       `json:"user"`
	Key     core.Str       `json:"key"`
	Prefix  core.Str       `json:"prefix,omitempty"`
	Offset  int64          `json:"offset"`
	Ops     []Op           `json:"ops"`
	Answers []httpx.Answer `json:"answers,omitempty"`
}

// stat is a model gauge.
type stat struct {
	counter bool
	n       int64
	sum, sq float64
	min     float64
	max     float64
}

type window map[string]*stat

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.:-_", r) {
			return r
		}
		return '_'
	}, s)
}

func (w window) count(k string) {
	if w[k] == nil {
		w[k] = &stat{counter: true}
	}
	w[k].n++
}

func (w window) measure(k string, v float64) {
	g := w[k]
	if g == nil {
		g = &stat{min: v, max: v}
		w[k] = g
	}
	g.n++
	g.sum = math.Max(-math.MaxFloat64, math.Min(g.sum+v, math.MaxFloat64)) // beyond that, diff doesn't look at it
	g.sq += v * v
	g.min = math.Min(g.min, v)
	g.max = math.Max(g.max, v)
}

var statuses = []string{"success", "validation_error", "panic", "error", "junk"}

func (w window) add(prefix string, e aggm.Emit) {
	if prefix != "" {
		prefix += "."
	}
	all := e
	for i := 0; i < all.Times(); i++ {
		e := all.At(i)
		job, event := clean(string(e.Job)), clean(string(e.Event))
		top, nested := prefix+event, prefix+job+"."+event
		switch e.Kind {
		case "event":
			w.count(top + ".count")
			w.count(nested + ".count")
		case "eventErr":
			w.count(top + ".error.count")
			w.count(nested + ".error.count")
		case "timing":
			w.measure(top+".timing", float64(e.Nanos)/1e6)
			w.measure(nested+".timing", float64(e.Nanos)/1e6)
		case "gauge":
			if v := float64(e.Value); !math.IsNaN(v) && !math.IsInf(v, 0) {
				w.measure(top+".gauge", v)
				w.measure(nested+".gauge", v)
			}
		case "complete":
			w.measure(prefix+job+"."+statuses[e.Status]+".timing", float64(e.Nanos)/1e6)
		}
	}
}

func (w window) merge(o window) {
	for k, g := range o {
		h := w[k]
		if h == nil {
			c := *g
			w[k] = &c
			continue
		}
		h.n += g.n
		h.sum += g.sum
		h.sq += g.sq
		h.min = math.Min(h.min, g.min)
		h.max = math.Max(h.max, g.max)
	}
}

type outcome struct {
	tr      *httpx.Transport
	windows map[int64]window // by the number of the post, counted in periods since the sink's creation
	odd     map[int64]bool   // windows with gauges that are left out
	t0      time.Time
	stop    func() error
	unsent  bool
}

func (c Case) run() *outcome {
	time.Sleep(time.Duration(c.Offset))
	o := &outcome{windows: map[int64]window{}, odd: map[int64]bool{}}
	o.tr = &httpx.Transport{Limit: 20000, Answer: func(i int, r *httpx.Req) httpx.Answer {
		if len(c.Answers) == 0 {
			return httpx.Answer{Kind: "ok"}
		}
		return c.Answers[i%len(c.Answers)]
	}}
	restore := o.tr.Install()
	s := librato.New(string(c.User), string(c.Key), string(c.Prefix))
	o.t0 = time.Now()
	synctest.Wait()
	for _, op := range c.Ops {
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
			// not at the very moment of a post: either order would be right
			if d := time.Since(o.t0) % period; d == 0 {
				time.Sleep(1)
			}
		case "emit":
			op.E.To(s, nil)
			k := int64(time.Since(o.t0)/period) + 1
			w := o.windows[k]
			if w == nil {
				w = window{}
				o.windows[k] = w
			}
			if op.E.Kind == "gauge" && (math.IsNaN(float64(op.E.Value)) || math.IsInf(float64(op.E.Value), 0)) {
				o.odd[k] = true
			}
			w.add(string(c.Prefix), op.E)
		}
	}
	// long enough for everything to be posted, and for several idle periods
	for i, last := 0, -1; i < 100 && last != len(o.tr.Reqs()); i++ {
		last = len(o.tr.Reqs())
		time.Sleep(8*period + time.Second)
	}
	synctest.Wait()
	o.stop = func() error {
		defer restore()
		done := make(chan bool)
		go func() {
			s.Stop()
			close(done)
		}()
		select {
		case <-done:
			return nil
		case <-time.After(5 * time.Minute):
			return errors.New("Stop has not returned after 5 minutes")
		}
	}
	return o
}

type entry struct {
	Value      *json.Number
	Count      *json.Number
	Sum        *float64
	Min        *float64
	Max        *float64
	SumSquares *float64 `json:"sum_squares"`
	Attributes map[string]interface{}
}

type post struct {
	MeasureTime *int64 `json:"measure_time"`
	Period      *int64
	Source      *string
	Gauges      map[string]entry
	Counters    map[string]interface{}
}

func decode(b []byte) (*post, error) {
	var p post
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, fmt.Errorf("not valid JSON (%v): %.300q", err, b)
	}
	return &p, nil
}

func close_(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

// sumClose allows for rounding in sums of n values of magnitude up to sqrt(sq).
func sumClose(a, b, sq float64) bool {
	return close_(a, b) || math.Abs(a-b) <= 1e-9*math.Sqrt(sq)
}

// stats turns the gauges of a post into model form.
func (p *post) stats() (window, error) {
	w := window{}
	if len(p.Counters) > 0 {
		return nil, fmt.Errorf("has counters: %v", p.Counters)
	}
	for k, g := range p.Gauges {
		if g.Value != nil {
			n, err := g.Value.Int64()
			if err != nil || g.Count != nil || g.Sum != nil {
				return nil, fmt.Errorf("odd counter %q", k)
			}
			w[k] = &stat{counter: true, n: n}
			continue
		}
		if g.Count == nil || g.Sum == nil || g.Min == nil || g.Max == nil || g.SumSquares == nil {
			return nil, fmt.Errorf("gauge %q is incomplete", k)
		}
		n, err := g.Count.Int64()
		if err != nil {
			return nil, fmt.Errorf("gauge %q has count %v", k, *g.Count)
		}
		w[k] = &stat{n: n, sum: *g.Sum, sq: *g.SumSquares, min: *g.Min, max: *g.Max}
	}
	return w, nil
}

func diff(e *core.Errs, what string, got, want window) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if want[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, w := got[k], want[k]
		switch {
		case g == nil:
			e.Addf("%s: %.200q is missing", what, k)
		case w == nil:
			e.Addf("%s: %.200q should not be there (%+v)", what, k, *g)
		case g.counter != w.counter || g.n != w.n:
			e.Addf("%s: %.200q is %+v, want %+v", what, k, *g, *w)
		case !w.counter && (!sumClose(g.sum, w.sum, w.sq) || !close_(g.sq, w.sq) || !close_(g.min, w.min) || !close_(g.max, w.max)):
			e.Addf("%s: %.200q is %+v, want %+v", what, k, *g, *w)
		}
	}
}

// checkWindows compares each post with its window. Posts have to be prompt.
func (o *outcome) checkWindows(e *core.Errs) {
	seen := map[int64]bool{}
	for i, r := range o.tr.Reqs() {
		d := r.At.Sub(o.t0)
		k := int64(d / period)
		if d%period != 0 || k == 0 {
			e.Addf("post %d is %v after the start, not a multiple of 15 s", i, d)
			return
		}
		if seen[k] {
			e.Addf("two posts %v after the start", d)
			return
		}
		seen[k] = true
		p, err := decode(r.Body)
		if err != nil {
			e.Addf("post %d: %v", i, err)
			return
		}
		got, err := p.stats()
		if err != nil {
			e.Addf("post %d: %v", i, err)
			return
		}
		if o.windows[k] == nil {
			e.Addf("post %d (%v after the start) has %d gauges although nothing was emitted since the previous post", i, d, len(got))
			return
		}
		diff(e, fmt.Sprintf("post %d (%v after the start)", i, d), got, o.windows[k])
	}
	for k, w := range o.windows {
		if !seen[k] && len(w) > 0 {
			e.Addf("no post %v after the start although %d gauges are due", time.Duration(k)*period, len(w))
		}
	}
}

func (o *outcome) checkFormat(e *core.Errs, c Case) {
	host, _ := os.Hostname()
	for i, r := range o.tr.Reqs() {
		if r.Method != "POST" || r.URL != "https://metrics-api.librato.com/v1/metrics" {
			e.Addf("post %d: %s %s", i, r.Method, r.URL)
		}
		if !r.Auth || r.User != string(c.User) || r.Pass != string(c.Key) {
			e.Addf("post %d: authenticated (%v) as %q with %q, want %q with %q", i, r.Auth, r.User, r.Pass, c.User, c.Key)
		}
		if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			e.Addf("post %d: content type %q", i, ct)
		}
		p, err := decode(r.Body)
		if err != nil {
			e.Addf("post %d: %v", i, err)
			return
		}
		if bytes.Count(r.Body, []byte("\"measure_time\"")) == 0 || p.MeasureTime == nil || *p.MeasureTime != r.At.Unix() {
			e.Addf("post %d: wrong measure_time in %.200q, want %d", i, r.Body, r.At.Unix())
		}
		if p.Period == nil || *p.Period != 15 {
			e.Addf("post %d: wrong period in %.200q", i, r.Body)
		}
		if host != "" && (p.Source == nil || *p.Source != host) {
			e.Addf("post %d: wrong source in %.200q, want %q", i, r.Body, host)
		}
		for k, g := range p.Gauges {
			unit := "ms"
			if g.Value != nil {
				unit = "count"
			}
			if g.Attributes["aggregate"] != true || g.Attributes["display_units_long"] != unit {
				e.Addf("post %d: %.200q has attributes %v, want unit %s, aggregated", i, k, g.Attributes, unit)
			}
		}
	}
}

type genOpts struct {
	aggm.Opts
	maxOps  int
	delays  bool
	faults  bool
	formats bool
}

func gen(g genOpts) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{User: "user@example.com", Key: "key", Offset: core.Pick[int64](t, "offset", 0, 1, 999999999, 7300000000)}
		if g.formats {
			c.User = core.Str(core.Pick(t, "user", "u", "user@example.com", "é%", ""))
			c.Key = core.Str(core.Text(t, "key", false))
		}
		if core.Chance(t, "prefixed", 1, 2) {
			c.Prefix = core.Str(core.Name(t, "prefix", core.NameOpts{}))
		}
		n := core.Len(t, "n", 1, g.maxOps)
		for i := 0; i < n; i++ {
			if core.Chance(t, "sleep", 1, 4) {
				op := Op{Op: "sleep"}
				switch core.Uniform(t, "sleepKind", 4) {
				case 0:
					op.Ns = core.Pick[int64](t, "ns", 1, 1e9, 14999999999, 15e9, 15000000001, 30e9, 44e9, 120e9)
				default:
					op.Ns = int64(rapid.IntRange(1, 20e9).Draw(t, "ns"))
				}
				c.Ops = append(c.Ops, op)
				continue
			}
			c.Ops = append(c.Ops, Op{Op: "emit", E: aggm.Gen(t, g.Opts)})
		}
		if g.delays || g.faults {
			m := 1 + core.Uniform(t, "answers", 5)
			for i := 0; i < m; i++ {
				c.Answers = append(c.Answers, httpx.GenAnswer(t, g.faults))
			}
		}
		return c
	}
}

func shape(c Case) (emits, windows int, l []string) {
	now, last := int64(0), int64(-1)
	seen := map[string]bool{}
	for _, op := range c.Ops {
		if op.Op == "sleep" {
			now += op.Ns
			continue
		}
		emits++
		if k := now / int64(period); k != last {
			windows++
			last = k
		}
		if !seen[op.E.Kind] {
			seen[op.E.Kind] = true
			l = append(l, op.E.Kind)
		}
		if op.E.Rep > 4096 && !seen["burst"] {
			seen["burst"] = true
			l = append(l, "burst>4096")
		}
	}
	if windows > 1 {
		l = append(l, "several-windows")
	}
	return
}

func finish(o *outcome, e *core.Errs) error {
	if err := o.stop(); err != nil && e.Err() == nil {
		return err
	}
	return e.Err()
}

func TestC20_windows(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{Opts: aggm.Opts{MaxRep: 6000, Negative: true}, maxOps: 80, delays: true}),
		Run: func(c Case) error {
			o := c.run()
			var e core.Errs
			o.checkWindows(&e)
			return finish(o, &e)
		},
		Classify: func(c Case) (bool, []string) {
			emits, windows, l := shape(c)
			return emits > 2 && windows > 1, l
		},
	})
}

func TestC21_format(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{Opts: aggm.Opts{BadUTF8: true, NonFinite: true}, maxOps: 40, formats: true}),
		Run: func(c Case) error {
			o := c.run()
			var e core.Errs
			for k, w := range o.windows {
				if o.odd[k] && len(w) == 0 {
					// nothing but values to leave out: whether an empty post is made does not matter
					for _, r := range o.tr.Reqs() {
						if r.At.Sub(o.t0) == time.Duration(k)*period {
							return finish(o, &e)
						}
					}
				}
			}
			o.checkWindows(&e)
			o.checkFormat(&e, c)
			return finish(o, &e)
		},
		Classify: func(c Case) (bool, []string) {
			emits, _, l := shape(c)
			return emits > 1, l
		},
	})
}

func TestC31_librato(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{Opts: aggm.Opts{Plain: true, MaxRep: 6000, MaxGauge: 1e100}, maxOps: 60, faults: true}),
		Run: func(c Case) error {
			o := c.run()
			var e core.Errs
			all, total := window{}, window{}
			for _, w := range o.windows {
				total.merge(w)
			}
			last := time.Time{}
			for i, r := range o.tr.Reqs() {
				p, err := decode(r.Body)
				if err != nil {
					e.Addf("post %d: %v", i, err)
					continue
				}
				w, err := p.stats()
				if err != nil {
					e.Addf("post %d: %v", i, err)
					continue
				}
				all.merge(w)
				if r.Done.IsZero() || r.Done.Sub(r.At) > time.Minute {
					e.Addf("post %d (answer: %+v) was not given up on within a minute", i, r.Answer)
				}
				if r.At.Before(last) {
					e.Addf("post %d was made while the one before was pending", i)
				}
				last = r.Done
			}
			if e.Err() == nil {
				diff(&e, "all posts together", all, total)
			}
			if n := o.tr.Open(); n > 0 {
				e.Addf("%d response bodies were never closed", n)
			}
			return finish(o, &e)
		},
		Classify: func(c Case) (bool, []string) {
			emits, windows, l := shape(c)
			bad := false
			for _, a := range c.Answers {
				bad = bad || !a.OK()
				l = append(l, a.Kind)
			}
			return emits > 1 && windows > 1 && bad, l
		},
	})
}

var _ health.Sink = (*librato.Sink)(nil)
