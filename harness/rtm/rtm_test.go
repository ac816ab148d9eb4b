// Package rtm checks the runtime-metrics reporter: what it reports and when, against the runtime's own numbers read just
// before and after.
package rtm

import (
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/rec"
)

// Op is a step.
type Op struct {
	Op string `json:"op"` // start, stop, sleep, report, alloc, gc, goroutines, files
	Ns int64  `json:"ns,omitempty"`
	N  int    `json:"n,omitempty"`
}

// Case is a life of a reporter.
type Case struct {
	Nil      bool  `json:"nil,omitempty"`
	Groups   int   `json:"groups"` // bits: memory, gc, quantiles, goroutines, cgo, fds
	Interval int64 `json:"interval"`
	Job      bool  `json:"job,omitempty"` // reports to a job instead of a stream
	Percent  int   `json:"percent"`
	Ops      []Op  `json:"ops"`
}

var groups = [][]string{
	{"alloc", "heap_objects"},
	{"pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction"},
	{"gc_pause_quantile_50", "gc_pause_quantile_max"},
	{"num_goroutines"},
	{"num_cgo_call"},
	{"num_fds_used"},
}

type reading struct {
	mem        runtime.MemStats
	q          []time.Duration
	goroutines int
	cgo        int64
	fds        int
}

func read() *reading {
	r := &reading{}
	runtime.ReadMemStats(&r.mem)
	var gc debug.GCStats
	gc.PauseQuantiles = make([]time.Duration, 3)
	debug.ReadGCStats(&gc)
	r.q = gc.PauseQuantiles
	r.goroutines = runtime.NumGoroutine()
	r.cgo = runtime.NumCgoCall()
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		r.fds = len(l)
	}
	return r
}

func between(e *core.Errs, name string, got, a, b float64) {
	if a > b {
		a, b = b, a
	}
	if !(got >= a && got <= b) {
		e.Addf("%s is %v, but the runtime says %v before and %v after", name, got, a, b)
	}
}

func checkValues(e *core.Errs, calls []rec.Call, a, b *reading, loose bool) {
	if a.mem.NumGC != b.mem.NumGC {
		return // a collection came in between
	}
	for _, c := range calls {
		v := c.Value
		heap := func(x, y float64) {
			if loose {
				x, y = math.Min(x, y)*0.5, math.Max(x, y)*1.5
			}
			between(e, c.Event, v, x, y)
		}
		switch c.Event {
		case "alloc":
			heap(float64(a.mem.Alloc), float64(b.mem.Alloc))
		case "heap_objects":
			heap(float64(a.mem.HeapObjects), float64(b.mem.HeapObjects))
		case "pause_total_ns":
			between(e, c.Event, v, float64(a.mem.PauseTotalNs), float64(b.mem.PauseTotalNs))
		case "num_gc":
			between(e, c.Event, v, float64(a.mem.NumGC), float64(b.mem.NumGC))
		case "next_gc":
			between(e, c.Event, v, math.Min(float64(a.mem.NextGC), float64(b.mem.NextGC))*0.97, math.Max(float64(a.mem.NextGC), float64(b.mem.NextGC))*1.03)
		case "gc_cpu_fraction":
			between(e, c.Event, v, a.mem.GCCPUFraction, b.mem.GCCPUFraction)
		case "gc_pause_quantile_50":
			ms := float64(a.q[1]) / 1e6
			between(e, c.Event, v, ms-0.0011, ms+0.0011)
		case "gc_pause_quantile_max":
			ms := float64(a.q[2]) / 1e6
			between(e, c.Event, v, ms-0.0011, ms+0.0011)
		case "num_goroutines":
			between(e, c.Event, v, float64(a.goroutines), float64(b.goroutines))
		case "num_cgo_call":
			between(e, c.Event, v, float64(a.cgo), float64(b.cgo))
		case "num_fds_used":
			// the directory that is being read may or may not count
			between(e, c.Event, v, math.Min(float64(a.fds), float64(b.fds))-1, math.Max(float64(a.fds), float64(b.fds)))
		}
	}
}

var keep [][]byte

func (c Case) run() (err error) {
	old := debug.SetGCPercent(c.Percent)
	defer debug.SetGCPercent(old)
	if c.Percent < 0 {
		runtime.GC() // nothing is left to be swept, so that the heap only grows until the next collection
	}
	sink := &rec.Sink{}
	st := health.NewStream()
	st.AddSink(sink)
	var to health.EventReceiver = st
	job := "general"
	if c.Job {
		to = st.NewJob("metrics")
		job = "metrics"
	}
	groupBits, interval := c.Groups, time.Duration(c.Interval)
	var rm *runtime_metrics.RuntimeMetrics
	if c.Nil {
		groupBits, interval = 63, 5*time.Second
		rm = runtime_metrics.NewRuntimeMetrics(to, nil)
	} else {
		rm = runtime_metrics.NewRuntimeMetrics(to, &runtime_metrics.Options{Interval: interval, Memory: groupBits&1 != 0, GC: groupBits&2 != 0,
			GCQuantile: groupBits&4 != 0, Goroutines: groupBits&8 != 0, Cgo: groupBits&16 != 0, FDs: groupBits&32 != 0})
	}
	var names []string
	for i, g := range groups {
		if groupBits&(1<<i) != 0 {
			names = append(names, g...)
		}
	}
	sort.Strings(names)
	var e core.Errs
	seen := 0
	// batch checks that the calls since the last look are exactly n reports
	batch := func(what string, n int) []rec.Call {
		calls := sink.Calls[seen:]
		seen = len(sink.Calls)
		if len(calls) != n*len(names) {
			e.Addf("%s: %d gauges instead of %d", what, len(calls), n*len(names))
			return nil
		}
		for k := 0; k < n; k++ {
			var got []string
			for _, x := range calls[k*len(names) : (k+1)*len(names)] {
				if x.Kind != "gauge" || x.Job != job {
					e.Addf("%s: reported %v", what, x)
				}
				got = append(got, x.Event)
			}
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(names) {
				e.Addf("%s: reported %v, want %v", what, got, names)
			}
		}
		return calls
	}
	running := false
	var started time.Time
	var parked []chan bool
	var files []*os.File
	defer func() {
		for _, ch := range parked {
			close(ch)
		}
		for _, f := range files {
			f.Close()
		}
		keep = nil
	}()
	stop := func() error {
		done := make(chan bool)
		go func() {
			rm.Stop()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(time.Minute):
			return errors.New("Stop has not returned after a minute")
		}
		running = false
		return nil
	}
	sleep := func(d time.Duration) {
		from := time.Now()
		// step by step, so that the numbers around each report are known
		end := from.Add(d)
		for {
			next := end
			tick := time.Time{}
			if running {
				n := time.Since(started)/interval + 1
				if at := started.Add(n * interval); !at.After(end) {
					tick, next = at, at
				}
			}
			time.Sleep(time.Until(next) - 1)
			synctest.Wait()
			batch("before the interval was over", 0)
			a := read()
			time.Sleep(1)
			synctest.Wait()
			b := read()
			if tick.IsZero() {
				batch("in between", 0)
				return
			}
			if calls := batch(fmt.Sprintf("%v after Start", tick.Sub(started)), 1); calls != nil {
				checkValues(&e, calls, a, b, c.Percent >= 0)
				for _, x := range calls {
					if !x.At.Equal(tick) {
						e.Addf("reported at %v instead of %v after Start", x.At.Sub(started), tick.Sub(started))
					}
				}
			}
			if !next.Before(end) || e.Err() != nil {
				return
			}
		}
	}
	for _, op := range c.Ops {
		if e.Err() != nil {
			break
		}
		switch op.Op {
		case "start":
			if running {
				continue
			}
			rm.Start()
			synctest.Wait()
			running, started = true, time.Now()
			batch("on Start", 0)
		case "stop":
			if !running {
				continue
			}
			if time.Since(started)%interval == 0 {
				time.Sleep(1)
			}
			if err := stop(); err != nil {
				return err
			}
			batch("on Stop", 0)
		case "sleep":
			sleep(time.Duration(op.Ns))
			if running && time.Since(started)%interval == 0 {
				time.Sleep(1)
			}
		case "report":
			a := read()
			rm.Report()
			b := read()
			if calls := batch("Report", 1); calls != nil {
				checkValues(&e, calls, a, b, c.Percent >= 0)
			}
		case "alloc":
			for i := 0; i < op.N; i++ {
				keep = append(keep, make([]byte, 3000))
			}
			if op.N%2 == 1 {
				keep = nil
			}
		case "gc":
			runtime.GC()
		case "goroutines":
			for i := 0; i < op.N; i++ {
				ch := make(chan bool)
				parked = append(parked, ch)
				go func() { <-ch }()
			}
			synctest.Wait()
		case "files":
			for i := 0; i < op.N; i++ {
				if f, err := os.Open(os.DevNull); err == nil {
					files = append(files, f)
				}
			}
		}
	}
	if running {
		if err := stop(); err != nil {
			return err
		}
	}
	time.Sleep(3*interval + time.Second)
	synctest.Wait()
	if e.Err() == nil {
		batch("after Stop", 0)
	}
	return e.Err()
}

func gen(t *rapid.T) Case {
	c := Case{Nil: core.Chance(t, "nil", 1, 5), Groups: core.Uniform(t, "groups", 64), Job: core.Chance(t, "job", 1, 4),
		Interval: core.Pick[int64](t, "interval", 1e9, 1, 1e6, 5e9, 60e9, 3600e9, 7777777), Percent: core.Pick(t, "percent", -1, -1, -1, 400)}
	if c.Interval < 1e6 && !c.Nil {
		c.Interval = 1e6
	}
	iv := c.Interval
	if c.Nil {
		iv = 5e9
	}
	n := core.Len(t, "n", 1, 24)
	for i := 0; i < n; i++ {
		op := Op{Op: core.Pick(t, "op", "report", "start", "sleep", "sleep", "stop", "alloc", "gc", "goroutines", "files", "start")}
		switch op.Op {
		case "sleep":
			op.Ns = core.Pick(t, "ns", iv, iv/2, iv-1, iv+1, 3*iv, 2*iv+iv/3, 7*iv)
			if op.Ns < 1 {
				op.Ns = 1
			}
		case "alloc":
			op.N = 1 + core.Uniform(t, "allocs", 300)
		case "goroutines", "files":
			op.N = 1 + core.Uniform(t, "count", 9)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC23_metrics(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Leaks:  true,
		Gen:    gen,
		Run:    Case.run,
		Classify: func(c Case) (bool, []string) {
			var l []string
			seen := map[string]bool{}
			running, reports := false, 0
			for _, op := range c.Ops {
				if !seen[op.Op] {
					seen[op.Op] = true
					l = append(l, op.Op)
				}
				switch op.Op {
				case "start":
					running = true
				case "stop":
					running = false
				case "sleep":
					if running && op.Ns >= c.Interval {
						reports++
					}
				case "report":
					reports++
				}
			}
			return reports > 0 && (c.Nil || c.Groups != 0), l
		},
	})
}

// SlowCase is a reporter whose sink takes its time.
type SlowCase struct {
	Groups   int   `json:"groups"`
	Interval int64 `json:"interval"`
	Took     int64 `json:"took"` // by a report, in permille of the interval
	Ticks    int   `json:"ticks"`
	Off      int64 `json:"off"` // time that it runs after the last tick, in permille of the interval
}

type slowSink struct {
	rec.Sink
	d  time.Duration
	at []time.Time
}

func (s *slowSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	s.at = append(s.at, time.Now())
	time.Sleep(s.d)
}

// run checks that an interval isn't left out because the report of the one before took long.
func (c SlowCase) run() error {
	interval := time.Duration(c.Interval)
	per := 0
	for i, g := range groups {
		if c.Groups&(1<<i) != 0 {
			per += len(g)
		}
	}
	sink := &slowSink{d: interval * time.Duration(c.Took) / 1000 / time.Duration(per)}
	st := health.NewStream()
	st.AddSink(sink)
	rm := runtime_metrics.NewRuntimeMetrics(st, &runtime_metrics.Options{Interval: interval, Memory: c.Groups&1 != 0, GC: c.Groups&2 != 0,
		GCQuantile: c.Groups&4 != 0, Goroutines: c.Groups&8 != 0, Cgo: c.Groups&16 != 0, FDs: c.Groups&32 != 0})
	rm.Start()
	synctest.Wait()
	start := time.Now()
	time.Sleep(interval*time.Duration(c.Ticks) + interval*time.Duration(c.Off)/1000)
	synctest.Wait()
	stopping := time.Now()
	n := len(sink.at)
	done := make(chan bool)
	go func() {
		rm.Stop()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(50*(interval+sink.d*time.Duration(per)) + time.Minute): // (another report may be due each time)
		return errors.New("Stop has not returned in time")
	}
	var e core.Errs
	took := sink.d * time.Duration(per)
	if len(sink.at) < (n+per-1)/per*per || len(sink.at)%per != 0 {
		e.Addf("%d gauges, not a multiple of %d", len(sink.at), per)
	}
	if took < interval {
		// Each report begins on its tick, and is over before the next one.
		for i := 1; i <= c.Ticks; i++ {
			if k := (i - 1) * per; k >= len(sink.at) {
				e.Addf("%d reports instead of %d; each takes %v of %v", len(sink.at)/per, c.Ticks, took, interval)
				break
			} else if want := start.Add(time.Duration(i) * interval); !sink.at[k].Equal(want) {
				e.Addf("report %d began at %v instead of %v; each takes %v", i, sink.at[k].Sub(start), want.Sub(start), took)
				break
			}
		}
	} else {
		// One is always due when the one before is over.
		end := start
		for k := 0; k <= n; k += per {
			at := stopping
			if k < n {
				at = sink.at[k]
			}
			if at.Sub(end) > interval {
				e.Addf("no report between %v and %v", end.Sub(start), at.Sub(start))
				break
			}
			if k < n {
				end = at.Add(took)
			}
		}
	}
	return e.Err()
}

func TestC23_slow(t *testing.T) {
	core.Check(t, core.Sub[SlowCase]{
		Bubble: true,
		Leaks:  true,
		Gen: func(t *rapid.T) SlowCase {
			return SlowCase{Groups: 1 + core.Uniform(t, "groups", 63), Interval: core.Pick[int64](t, "interval", 1e9, 1e6, 5e9, 60e9), Ticks: 1 + core.Uniform(t, "ticks", 30),
				Took: int64(core.Pick(t, "took", core.Uniform(t, "part", 999), core.Uniform(t, "part", 999), 500, 900, 990, core.Uniform(t, "parts", 5000))), Off: int64(1 + core.Uniform(t, "off", 998))}
		},
		Run: SlowCase.run,
		Classify: func(c SlowCase) (bool, []string) {
			if c.Took >= 1000 {
				return c.Ticks > 1, []string{"longer than an interval"}
			}
			return c.Took > 0 && c.Ticks > 1, nil
		},
	})
}
