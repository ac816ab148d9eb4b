// Package rec has a recording sink.
package rec

import (
	"fmt"
	"sync"
	"time"

	"github.com/gocraft/health"
)

// Call is one call of a sink method, with the key/values as they were at the time.
type Call struct {
	Kind   string // event, eventErr, timing, gauge, complete
	Job    string
	Event  string
	Err    error
	Nanos  int64
	Value  float64
	Status health.CompletionStatus
	Kvs    map[string]string

	Emitted bool      // for *health.UnmutedError: its Emitted flag at the time
	At      time.Time // when the call was made
	Seq     int       // global order over all sinks that share Clock
}

func (c Call) String() string {
	s := fmt.Sprintf("%s job=%q event=%q", c.Kind, c.Job, c.Event)
	switch c.Kind {
	case "eventErr":
		s += fmt.Sprintf(" err=%T(%q)", c.Err, short(fmt.Sprint(c.Err)))
	case "timing":
		s += fmt.Sprintf(" nanos=%d", c.Nanos)
	case "gauge":
		s += fmt.Sprintf(" value=%v", c.Value)
	case "complete":
		s += fmt.Sprintf(" status=%d nanos=%d", c.Status, c.Nanos)
	}
	return s + fmt.Sprintf(" kvs=%q", c.Kvs)
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// Sink records every call made to it.
type Sink struct {
	mu    sync.Mutex
	Calls []Call
	Seq   *int
	// Before, if set, runs at the start of every call.
	Before func()
}

func cp(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	d := make(map[string]string, len(m))
	for k, v := range m {
		d[k] = v
	}
	return d
}

func (s *Sink) add(c Call) {
	if s.Before != nil {
		s.Before()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	c.Kvs = cp(c.Kvs)
	c.At = time.Now()
	if u, ok := c.Err.(*health.UnmutedError); ok {
		c.Emitted = u.Emitted
	}
	if s.Seq != nil {
		*s.Seq++
		c.Seq = *s.Seq
	}
	s.Calls = append(s.Calls, c)
}

// Len is the number of calls so far.
func (s *Sink) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.Calls)
}

func (s *Sink) EmitEvent(job string, event string, kvs map[string]string) {
	s.add(Call{Kind: "event", Job: job, Event: event, Kvs: kvs})
}
func (s *Sink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
	s.add(Call{Kind: "eventErr", Job: job, Event: event, Err: err, Kvs: kvs})
}
func (s *Sink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
	s.add(Call{Kind: "timing", Job: job, Event: event, Nanos: nanos, Kvs: kvs})
}
func (s *Sink) EmitComplete(job string, status health.CompletionStatus, nanos int64, kvs map[string]string) {
	s.add(Call{Kind: "complete", Job: job, Status: status, Nanos: nanos, Kvs: kvs})
}
func (s *Sink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	s.add(Call{Kind: "gauge", Job: job, Event: event, Value: value, Kvs: kvs})
}
