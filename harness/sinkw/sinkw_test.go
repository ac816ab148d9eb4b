// Package sinkw checks the writer sinks: every emission becomes one Write whose contents can be predicted (WriterSink)
// or read back (JsonWriterSink).
package sinkw

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Op is one emission, directly on the sink or through a stream with it.
type Op struct {
	Kind   string   `json:"k"`
	Job    core.Str `json:"j"`
	Event  core.Str `json:"e,omitempty"`
	Err    core.Str `json:"err,omitempty"`
	Nanos  int64    `json:"ns,omitempty"`
	Value  core.F64 `json:"g,omitzero"`
	Status int      `json:"st,omitempty"`
	Kvs    core.Kvs `json:"kvs"`
	Sleep  int64    `json:"sleep,omitempty"` // virtual time before it
}

// Case is a run over one sink.
type Case struct {
	Zone   int   `json:"zone"`
	Offset int64 `json:"offset"`
	Ops    []Op  `json:"ops"`
	Fail   []int `json:"fail,omitempty"` // indices of writes that fail
}

func gen(bad, nonFinite bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{
			Zone:   core.Pick(t, "zone", 0, 3600, -18000, 19800, 45900),
			Offset: core.Pick[int64](t, "offset", 0, 1, 999999999, 500000000, 1000, 123456789, 100000000),
		}
		n := core.Len(t, "n", 1, 40)
		for i := 0; i < n; i++ {
			o := Op{
				Kind: core.Pick(t, "kind", "event", "eventErr", "timing", "gauge", "complete"),
				Job:  core.Str(core.Name(t, "job", core.NameOpts{Empty: true, BadUTF8: bad, MaxLen: 5000})),
				Kvs:  core.GenKvs(t, "kvs", bad),
			}
			if core.Chance(t, "many", 1, 12) {
				m := 6 + core.Uniform(t, "manyN", 40)
				for j := 0; j < m; j++ {
					o.Kvs = append(o.Kvs, core.KV{K: core.Str(core.Name(t, "mk", core.NameOpts{Empty: true, BadUTF8: bad})), V: core.Str(strconv.Itoa(j))})
				}
			}
			if o.Kind != "complete" {
				o.Event = core.Str(core.Name(t, "event", core.NameOpts{Empty: true, BadUTF8: bad, MaxLen: 5000}))
			} else {
				o.Status = core.Uniform(t, "status", 5)
			}
			switch o.Kind {
			case "eventErr":
				o.Err = core.Str(core.Text(t, "err", bad))
			case "timing", "complete":
				o.Nanos = core.Nanos(t, "ns", true)
			case "gauge":
				o.Value = core.F64(core.Gauge(t, "g", math.MaxFloat64))
				if nonFinite && core.Chance(t, "nonfinite", 1, 8) {
					o.Value = core.F64(core.Pick(t, "odd", math.NaN(), math.Inf(1), math.Inf(-1)))
				}
			}
			if core.Chance(t, "slept", 1, 3) {
				o.Sleep = core.Nanos(t, "sleep", false)
			}
			if core.Chance(t, "fails", 1, 20) {
				c.Fail = append(c.Fail, i)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// writer records each Write; it may fail.
type writer struct {
	writes [][]byte
	fail   map[int]bool
	n      int
}

func (w *writer) Write(b []byte) (int, error) {
	w.writes = append(w.writes, append([]byte(nil), b...))
	i := w.n
	w.n++
	if w.fail[i] {
		return len(b) / 2, errors.New("disk full")
	}
	return len(b), nil
}

type textErr string

func (e textErr) Error() string { return string(e) }

func (o Op) err() error { return textErr(o.Err) }

func (o Op) emit(s health.Sink, kvs map[string]string) {
	switch o.Kind {
	case "event":
		s.EmitEvent(string(o.Job), string(o.Event), kvs)
	case "eventErr":
		s.EmitEventErr(string(o.Job), string(o.Event), o.err(), kvs)
	case "timing":
		s.EmitTiming(string(o.Job), string(o.Event), o.Nanos, kvs)
	case "gauge":
		s.EmitGauge(string(o.Job), string(o.Event), float64(o.Value), kvs)
	case "complete":
		s.EmitComplete(string(o.Job), health.CompletionStatus(o.Status), o.Nanos, kvs)
	}
}

var statuses = []string{"success", "validation_error", "panic", "error", "junk"}

func (c Case) run(mk func(w io.Writer) health.Sink, check func(e *core.Errs, i int, o Op, now time.Time, writes [][]byte)) error {
	old := time.Local
	time.Local = time.FixedZone("here", c.Zone)
	defer func() { time.Local = old }()
	time.Sleep(time.Duration(c.Offset))
	w := &writer{fail: map[int]bool{}}
	s := mk(w)
	var e core.Errs
	fails := map[int]bool{}
	for _, i := range c.Fail {
		fails[i] = true
	}
	for i, o := range c.Ops {
		time.Sleep(time.Duration(o.Sleep))
		w.writes = nil
		w.n = 0
		w.fail = map[int]bool{0: fails[i]}
		kvs := o.Kvs.Map()
		o.emit(s, kvs)
		now := time.Now()
		if !sameMap(kvs, o.Kvs.Map()) {
			e.Addf("op %d: the caller's key/values were changed to %q", i, kvs)
		}
		check(&e, i, o, now, w.writes)
	}
	return e.Err()
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func dur(n int64) string {
	if n <= 2000 {
		return fmt.Sprintf("%d ns", n)
	}
	if n <= 2000*1000 {
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ms", n/1000/1000)
}

func clip(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func checkLine(e *core.Errs, i int, o Op, now time.Time, writes [][]byte) {
	if len(writes) != 1 {
		e.Addf("op %d (%s): %d writes instead of 1", i, o.Kind, len(writes))
		return
	}
	line := string(writes[0])
	rest := line
	ok := strings.HasPrefix(rest, "[")
	end := strings.Index(rest, "]: ")
	if !ok || end < 0 {
		e.Addf("op %d: no timestamp in %s", i, clip(writes[0]))
		return
	}
	ts, rest := rest[1:end], rest[end+3:]
	if at, err := time.Parse(time.RFC3339Nano, ts); err != nil || !strings.HasSuffix(ts, "Z") || !at.Equal(now) {
		e.Addf("op %d: timestamp %q for an emission at %s", i, ts, now.UTC().Format(time.RFC3339Nano))
	}
	want := "job:" + string(o.Job)
	if o.Kind == "complete" {
		want += " status:" + statuses[o.Status]
	} else {
		want += " event:" + string(o.Event)
	}
	if o.Kind == "eventErr" {
		want += " err:" + string(o.Err)
	}
	if o.Kind == "timing" || o.Kind == "complete" {
		want += " time:" + dur(o.Nanos)
	}
	if !strings.HasPrefix(rest, want) {
		e.Addf("op %d: got %s, want it to go on with %s", i, clip([]byte(rest)), clip([]byte(want)))
		return
	}
	rest = rest[len(want):]
	if o.Kind == "gauge" {
		g := rest
		if !strings.HasPrefix(g, " gauge:") {
			e.Addf("op %d: no gauge in %s", i, clip(writes[0]))
			return
		}
		g = g[len(" gauge:"):]
		n := strings.IndexAny(g, " \n")
		if n < 0 {
			e.Addf("op %d: unterminated gauge in %s", i, clip(writes[0]))
			return
		}
		rest = g[n:]
		v, err := strconv.ParseFloat(g[:n], 64)
		if err != nil || !(v == float64(o.Value) || v != v && float64(o.Value) != float64(o.Value)) {
			e.Addf("op %d: gauge %v written as %q", i, float64(o.Value), g[:n])
		}
	}
	m := o.Kvs.Map()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for j, k := range keys {
		keys[j] = k + ":" + m[k]
	}
	wantK := " kvs:[" + strings.Join(keys, " ") + "]\n"
	if rest != wantK && !(len(m) == 0 && rest == "\n") {
		e.Addf("op %d: got %s, want it to end with %s", i, clip(writes[0]), clip([]byte(wantK)))
	}
}

func checkJSON(e *core.Errs, i int, o Op, now time.Time, writes [][]byte) {
	nonFinite := o.Kind == "gauge" && (math.IsNaN(float64(o.Value)) || math.IsInf(float64(o.Value), 0))
	if nonFinite {
		for _, w := range writes {
			if !json.Valid(w) {
				e.Addf("op %d: invalid JSON %s for a gauge of %v", i, clip(w), float64(o.Value))
			}
		}
		return
	}
	if len(writes) != 1 {
		e.Addf("op %d (%s): %d writes instead of 1", i, o.Kind, len(writes))
		return
	}
	dec := json.NewDecoder(bytes.NewReader(writes[0]))
	dec.UseNumber()
	var got map[string]interface{}
	if err := dec.Decode(&got); err != nil {
		e.Addf("op %d: not a JSON object (%v): %s", i, err, clip(writes[0]))
		return
	}
	var more interface{}
	if err := dec.Decode(&more); err != io.EOF {
		e.Addf("op %d: something after the JSON object: %s", i, clip(writes[0]))
	}
	want := map[string]string{"Job": string(o.Job)}
	switch o.Kind {
	case "complete":
		want["Status"] = statuses[o.Status]
	default:
		want["Event"] = string(o.Event)
	}
	if o.Kind == "eventErr" {
		want["Err"] = string(o.Err)
	}
	for k, v := range want {
		if g, ok := got[k].(string); !ok || g != v {
			e.Addf("op %d: %s is %.200q, want %.200q", i, k, got[k], v)
		}
	}
	ts, _ := got["Timestamp"].(string)
	if at, err := time.Parse(time.RFC3339Nano, ts); err != nil || !strings.HasSuffix(ts, "Z") || !at.Equal(now) {
		e.Addf("op %d: timestamp %q for an emission at %s", i, ts, now.UTC().Format(time.RFC3339Nano))
	}
	if o.Kind == "timing" || o.Kind == "complete" {
		if n, ok := got["Nanoseconds"].(json.Number); !ok || n.String() != strconv.FormatInt(o.Nanos, 10) {
			e.Addf("op %d: Nanoseconds is %v, want %d", i, got["Nanoseconds"], o.Nanos)
		}
	}
	if o.Kind == "gauge" {
		n, ok := got["Value"].(json.Number)
		if v, err := n.Float64(); !ok || err != nil || v != float64(o.Value) {
			e.Addf("op %d: Value is %v, want %v", i, got["Value"], float64(o.Value))
		}
	}
	m := o.Kvs.Map()
	kvs, ok := got["Kvs"].(map[string]interface{})
	if !ok && got["Kvs"] != nil || len(kvs) != len(m) {
		e.Addf("op %d: %d key/values, want %d: %s", i, len(kvs), len(m), clip(writes[0]))
		return
	}
	for k, v := range m {
		if g, ok := kvs[k].(string); !ok || g != v {
			e.Addf("op %d: key %q is %.200q, want %.200q", i, k, kvs[k], v)
		}
	}
}

func classify(c Case) (bool, []string) {
	var l []string
	nt := false
	seen := map[string]bool{}
	for _, o := range c.Ops {
		if len(o.Kvs.Map()) > 1 {
			nt = true
		}
		if !seen[o.Kind] {
			seen[o.Kind] = true
			l = append(l, o.Kind)
		}
		if !utf8.ValidString(string(o.Job)+string(o.Event)+string(o.Err)) && !seen["bad"] {
			seen["bad"] = true
			l = append(l, "bad-utf8")
		}
	}
	if len(c.Fail) > 0 {
		l = append(l, "failing-writes")
	}
	return nt && len(c.Ops) >= 2, l
}

func TestC13_lines(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(true, true),
		Run: func(c Case) error {
			return c.run(func(w io.Writer) health.Sink { return &health.WriterSink{Writer: w} }, checkLine)
		},
		Classify: classify,
	})
}

func TestC14_json(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(false, true),
		Run: func(c Case) error {
			return c.run(func(w io.Writer) health.Sink { return &health.JsonWriterSink{Writer: w} }, checkJSON)
		},
		Classify: classify,
	})
}
