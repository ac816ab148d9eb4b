// Package aggm is the reference model of an interval's aggregation: a plain fold over the emissions, independent of
// the types of the code under test, plus conversions from those types and from their JSON form.
package aggm

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Emit is one emission.
type Emit struct {
	Kind   string   `json:"k"` // event, eventErr, timing, gauge, complete
	Job    core.Str `json:"j"`
	Event  core.Str `json:"e,omitempty"`
	Nanos  int64    `json:"ns,omitempty"`
	Value  core.F64 `json:"g,omitzero"`
	Status int      `json:"st,omitempty"`
	Err    string   `json:"err,omitempty"`    // plain, muted, unmuted, incomparable
	Rep    int      `json:"rep,omitempty"`    // emitted this many times (0: once)
	Spread int      `json:"spread,omitempty"` // each time with another job (1), event (2), or both (3)
}

// At is what is emitted the i-th time.
func (e Emit) At(i int) Emit {
	if e.Spread&1 != 0 {
		e.Job += core.Str(fmt.Sprintf("-%d", i))
	}
	if e.Spread&2 != 0 && e.Kind != "complete" {
		e.Event += core.Str(fmt.Sprintf("-%d", i))
	}
	e.Rep, e.Spread = 0, 0
	return e
}

type listErr struct{ l []string }

func (l listErr) Error() string { return fmt.Sprint(l.l) }

func (e Emit) error() error {
	switch e.Err {
	case "muted":
		return health.Mute(fmt.Errorf("m"))
	case "unmuted":
		return &health.UnmutedError{Err: fmt.Errorf("u")}
	case "incomparable":
		return listErr{[]string{"a"}}
	}
	return fmt.Errorf("%s", e.Err)
}

// Times is how often it is emitted.
func (e Emit) Times() int {
	if e.Rep < 1 {
		return 1
	}
	return e.Rep
}

// To emits it on a sink.
func (e Emit) To(s health.Sink, kvs map[string]string) {
	all := e
	for i := 0; i < all.Times(); i++ {
		e := all.At(i)
		switch e.Kind {
		case "event":
			s.EmitEvent(string(e.Job), string(e.Event), kvs)
		case "eventErr":
			s.EmitEventErr(string(e.Job), string(e.Event), e.error(), kvs)
		case "timing":
			s.EmitTiming(string(e.Job), string(e.Event), e.Nanos, kvs)
		case "gauge":
			s.EmitGauge(string(e.Job), string(e.Event), float64(e.Value), kvs)
		case "complete":
			s.EmitComplete(string(e.Job), health.CompletionStatus(e.Status), e.Nanos, kvs)
		}
	}
}

// Opts selects what Gen draws.
type Opts struct {
	BadUTF8   bool
	NonFinite bool
	MaxRep    int
	Negative  bool
	Plain     bool // only plain names
	MaxGauge  float64
	Strange   bool // completion statuses that don't exist
}

// Gen draws an emission.
func Gen(t *rapid.T, o Opts) Emit {
	name := func(l string) core.Str {
		if o.Plain {
			return core.Str(core.Pick(t, l, "a", "b", "c", "foo"))
		}
		return core.Str(core.Name(t, l, core.NameOpts{Empty: true, BadUTF8: o.BadUTF8}))
	}
	e := Emit{Kind: core.Pick(t, "kind", "event", "eventErr", "timing", "gauge", "complete"), Job: name("job")}
	if e.Kind != "complete" {
		e.Event = name("event")
	}
	switch e.Kind {
	case "eventErr":
		e.Err = core.Pick(t, "err", "plain", "other", "muted", "unmuted", "incomparable")
	case "timing", "complete":
		e.Nanos = core.Nanos(t, "nanos", false)
		if o.Negative && core.Chance(t, "neg", 1, 20) {
			e.Nanos = -e.Nanos
		}
		if e.Kind == "complete" {
			e.Status = core.Uniform(t, "status", 5)
			if o.Strange && core.Chance(t, "strangeStatus", 1, 30) {
				e.Status = core.Pick(t, "strange", 5, -1, 1000)
			}
		}
	case "gauge":
		max := o.MaxGauge
		if max == 0 {
			max = math.MaxFloat64
		}
		e.Value = core.F64(core.Gauge(t, "gauge", max))
		if o.NonFinite && core.Chance(t, "nonfinite", 1, 8) {
			e.Value = core.F64(core.Pick(t, "odd", math.NaN(), math.Inf(1), math.Inf(-1)))
		}
	}
	if o.MaxRep > 1 && core.Chance(t, "rep", 1, 8) {
		e.Rep = 2 + core.Uniform(t, "reps", 9)
		if core.Chance(t, "bulk", 1, 12) {
			e.Rep = 1 + core.Uniform(t, "bulkReps", o.MaxRep)
			if e.Nanos > 1<<45 {
				e.Nanos = 1 << 45
			}
		}
	}
	if o.MaxRep > 1 && core.Chance(t, "spread", 1, 60) {
		e.Rep = 2 + core.Uniform(t, "spreadReps", 300)
		e.Spread = 1 + core.Uniform(t, "spreadKind", 3)
		if e.Nanos > 1<<45 {
			e.Nanos = 1 << 45
		}
	}
	return e
}

// Timer aggregates durations.
type Timer struct {
	Count    int64   `json:"count"`
	Sum      int64   `json:"nanos_sum"`
	Sq       float64 `json:"nanos_sum_squares"`
	Min      int64   `json:"nanos_min"`
	Max      int64   `json:"nanos_max"`
	Contents int     `json:"-"`
}

func (t *Timer) add(n int64) {
	if t.Count == 0 || n < t.Min {
		t.Min = n
	}
	if t.Count == 0 || n > t.Max {
		t.Max = n
	}
	t.Count++
	t.Sum += n
	t.Sq += float64(n) * float64(n)
}

// Errs counts error events.
type Errs struct {
	Count int64 `json:"count"`
}

// Maps are the events, errors, timings and gauges of an interval or of a job.
type Maps struct {
	Timers map[string]*Timer  `json:"timers"`
	Gauges map[string]float64 `json:"gauges"`
	Events map[string]int64   `json:"events"`
	Errs   map[string]*Errs   `json:"event_errs"`
}

// Job is a job's part.
type Job struct {
	Maps
	Timer
	Success    int64 `json:"count_success"`
	Validation int64 `json:"count_validation_error"`
	Panic      int64 `json:"count_panic"`
	Error      int64 `json:"count_error"`
	Junk       int64 `json:"count_junk"`
}

// Interval is an interval's aggregation.
type Interval struct {
	Start  time.Time       `json:"interval_start"`
	Serial int64           `json:"serial_number"`
	Jobs   map[string]*Job `json:"jobs"`
	Maps
	Changes int `json:"-"` // emissions that certainly changed it
	Maybe   int `json:"-"` // emissions that may leave it alone
}

func newMaps() Maps {
	return Maps{map[string]*Timer{}, map[string]float64{}, map[string]int64{}, map[string]*Errs{}}
}

// New is an empty interval.
func New(start time.Time) *Interval {
	return &Interval{Start: start, Jobs: map[string]*Job{}, Maps: newMaps()}
}

func (iv *Interval) job(name string) *Job {
	j := iv.Jobs[name]
	if j == nil {
		j = &Job{Maps: newMaps()}
		iv.Jobs[name] = j
	}
	return j
}

func (m *Maps) add(e Emit) {
	ev := string(e.Event)
	switch e.Kind {
	case "event":
		m.Events[ev]++
	case "eventErr":
		if m.Errs[ev] == nil {
			m.Errs[ev] = &Errs{}
		}
		m.Errs[ev].Count++
	case "timing":
		if m.Timers[ev] == nil {
			m.Timers[ev] = &Timer{}
		}
		m.Timers[ev].add(e.Nanos)
	case "gauge":
		m.Gauges[ev] = float64(e.Value)
	}
}

// Add folds an emission in.
func (iv *Interval) Add(e Emit) {
	if e.Kind == "gauge" && (math.IsNaN(float64(e.Value)) || math.IsInf(float64(e.Value), 0)) {
		iv.Maybe++
		return
	}
	all := e
	for i := 0; i < all.Times(); i++ {
		e := all.At(i)
		iv.Changes++
		j := iv.job(string(e.Job))
		if e.Kind == "complete" {
			j.Timer.add(e.Nanos)
			switch health.CompletionStatus(e.Status) {
			case health.Success:
				j.Success++
			case health.ValidationError:
				j.Validation++
			case health.Panic:
				j.Panic++
			case health.Error:
				j.Error++
			case health.Junk:
				j.Junk++
			}
			continue
		}
		iv.Maps.add(e)
		j.Maps.add(e)
	}
}

func (t *Timer) merge(o *Timer) {
	if o.Count == 0 {
		return
	}
	if t.Count == 0 || o.Min < t.Min {
		t.Min = o.Min
	}
	if t.Count == 0 || o.Max > t.Max {
		t.Max = o.Max
	}
	t.Count += o.Count
	t.Sum += o.Sum
	t.Sq += o.Sq
}

func (m *Maps) merge(o *Maps) {
	for k, v := range o.Events {
		m.Events[k] += v
	}
	for k, v := range o.Gauges {
		m.Gauges[k] = v
	}
	for k, v := range o.Errs {
		if m.Errs[k] == nil {
			m.Errs[k] = &Errs{}
		}
		m.Errs[k].Count += v.Count
	}
	for k, v := range o.Timers {
		if m.Timers[k] == nil {
			m.Timers[k] = &Timer{}
		}
		m.Timers[k].merge(v)
	}
}

// Merge merges o in; gauges of o win.
func (iv *Interval) Merge(o *Interval) {
	iv.Maps.merge(&o.Maps)
	for k, v := range o.Jobs {
		j := iv.job(k)
		j.Maps.merge(&v.Maps)
		j.Timer.merge(&v.Timer)
		j.Success += v.Success
		j.Validation += v.Validation
		j.Panic += v.Panic
		j.Error += v.Error
		j.Junk += v.Junk
	}
}

func fromTimer(t *health.TimerAggregation) *Timer {
	if t == nil {
		return nil
	}
	return &Timer{Count: t.Count, Sum: t.NanosSum, Sq: t.NanosSumSquares, Min: t.NanosMin, Max: t.NanosMax}
}

func fromMaps(timers map[string]*health.TimerAggregation, gauges map[string]float64, events map[string]int64, errs map[string]*health.ErrorCounter) Maps {
	m := newMaps()
	for k, v := range timers {
		m.Timers[k] = fromTimer(v)
	}
	for k, v := range gauges {
		m.Gauges[k] = v
	}
	for k, v := range events {
		m.Events[k] = v
	}
	for k, v := range errs {
		if v != nil {
			m.Errs[k] = &Errs{v.Count}
		} else {
			m.Errs[k] = nil
		}
	}
	return m
}

// From deep-copies an aggregation of the code under test.
func From(ia *health.IntervalAggregation) *Interval {
	iv := New(ia.IntervalStart)
	iv.Serial = ia.SerialNumber
	iv.Maps = fromMaps(ia.Timers, ia.Gauges, ia.Events, ia.EventErrs)
	for k, v := range ia.Jobs {
		if v == nil {
			iv.Jobs[k] = nil
			continue
		}
		j := &Job{Maps: fromMaps(v.Timers, v.Gauges, v.Events, v.EventErrs)}
		j.Timer = *fromTimer(&v.TimerAggregation)
		j.Success, j.Validation, j.Panic, j.Error, j.Junk = v.CountSuccess, v.CountValidationError, v.CountPanic, v.CountError, v.CountJunk
		iv.Jobs[k] = j
	}
	return iv
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func (t *Timer) eq(o *Timer) bool {
	return t.Count == o.Count && t.Sum == o.Sum && t.Min == o.Min && t.Max == o.Max && near(t.Sq, o.Sq)
}

func keys[V any](ms ...map[string]V) []string {
	seen := map[string]bool{}
	var ks []string
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	return ks
}

var zeroTimer, zeroErrs, zeroJob = &Timer{}, &Errs{}, &Job{Maps: newMaps()}

func orT(t *Timer) *Timer {
	if t == nil {
		return zeroTimer
	}
	return t
}

// anyGauge, as an expected gauge, accepts each of several values.
type GaugeSet map[string][]float64

func diffMaps(e *core.Errs, where string, got, want *Maps, gs func(k string) []float64) {
	for _, k := range keys(got.Events, want.Events) {
		if got.Events[k] != want.Events[k] {
			e.Addf("%s: event %q counted %d times, want %d", where, k, got.Events[k], want.Events[k])
		}
	}
	for _, k := range keys(got.Errs, want.Errs) {
		g, w := got.Errs[k], want.Errs[k]
		if g == nil {
			g = zeroErrs
		}
		if w == nil {
			w = zeroErrs
		}
		if g.Count != w.Count {
			e.Addf("%s: error %q counted %d times, want %d", where, k, g.Count, w.Count)
		}
	}
	for _, k := range keys(got.Gauges, want.Gauges) {
		g, gok := got.Gauges[k]
		w, wok := want.Gauges[k]
		ok := gok == wok && g == w
		if !ok && gok && gs != nil {
			for _, v := range gs(k) {
				ok = ok || g == v
			}
		}
		if !ok {
			e.Addf("%s: gauge %q is %v (present: %v), want %v (present: %v)", where, k, g, gok, w, wok)
		}
	}
	for _, k := range keys(got.Timers, want.Timers) {
		g, w := orT(got.Timers[k]), orT(want.Timers[k])
		if !g.eq(w) {
			e.Addf("%s: timing %q is %+v, want %+v", where, k, *g, *w)
		}
	}
}

// Diff compares contents (not start or serial number). Entries that hold nothing equal missing entries.
func Diff(e *core.Errs, where string, got, want *Interval) { DiffG(e, where, got, want, nil) }

// DiffG is Diff, where a gauge may also have any of the values gs gives for its job ("" and false: overall) and key.
func DiffG(e *core.Errs, where string, got, want *Interval, gs func(job string, isJob bool, key string) []float64) {
	var g0 func(string) []float64
	if gs != nil {
		g0 = func(k string) []float64 { return gs("", false, k) }
	}
	diffMaps(e, where, &got.Maps, &want.Maps, g0)
	for _, k := range keys(got.Jobs, want.Jobs) {
		g, w := got.Jobs[k], want.Jobs[k]
		if g == nil {
			g = zeroJob
		}
		if w == nil {
			w = zeroJob
		}
		wh := fmt.Sprintf("%s: job %q", where, k)
		var gj func(string) []float64
		if gs != nil {
			gj = func(key string) []float64 { return gs(k, true, key) }
		}
		diffMaps(e, wh, &g.Maps, &w.Maps, gj)
		if !g.Timer.eq(&w.Timer) {
			e.Addf("%s: completions are %+v, want %+v", wh, g.Timer, w.Timer)
		}
		if g.Success != w.Success || g.Validation != w.Validation || g.Panic != w.Panic || g.Error != w.Error || g.Junk != w.Junk {
			e.Addf("%s: statuses (success, validation error, panic, error, junk) are %d %d %d %d %d, want %d %d %d %d %d", wh,
				g.Success, g.Validation, g.Panic, g.Error, g.Junk, w.Success, w.Validation, w.Panic, w.Error, w.Junk)
		}
	}
}

// Clone copies deeply.
func (iv *Interval) Clone() *Interval {
	c := New(iv.Start)
	c.Merge(iv)
	c.Serial = iv.Serial
	return c
}

// HealthResponse is the JSON document served at /health.
type HealthResponse struct {
	InstanceID       string      `json:"instance_id"`
	IntervalDuration int64       `json:"interval_duration"`
	Aggregations     []*Interval `json:"aggregations"`
}

// Decode parses exactly one JSON document into v.
func Decode(b []byte, v interface{}) error {
	if !json.Valid(b) {
		return fmt.Errorf("not one valid JSON document: %.300q", b)
	}
	return json.Unmarshal(b, v)
}
