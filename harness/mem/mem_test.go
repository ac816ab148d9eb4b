// Package mem checks that memory does not grow with the length of a component's life: lives are cycles in virtual time that are
// repeated with names that were never used before, long enough for everything that is kept on purpose to be over.
package mem

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/httpx"
)

func init() { core.Quiet() }

const nameLen = 4096

// fresh is a string that was never used before.
func fresh(parts ...interface{}) string {
	return fmt.Sprint(parts...) + strings.Repeat("x", nameLen)
}

// heap is, after rest, the live memory and the number of goroutines.
func heap(rest func()) (int64, int) {
	rest()
	synctest.Wait()
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), runtime.NumGoroutine()
}

// grows tells whether memory, or the number of goroutines, grows with each cycle.
func grows(warm, n int, cycle func(i int) error, rest func()) error {
	i := 0
	run := func(n int) error {
		for ; n > 0; n-- {
			if err := cycle(i); err != nil {
				return err
			}
			i++
		}
		return nil
	}
	if err := run(warm); err != nil {
		return err
	}
	b0, g0 := heap(rest)
	limit := int64(n) * nameLen / 2
	var first string
	for round := 0; ; round++ {
		if err := run(n); err != nil {
			return err
		}
		b, g := heap(rest)
		if b-b0 < limit && g-g0 < n/2 {
			return nil
		}
		msg := fmt.Sprintf("%d cycles after the first %d, the heap has grown by %d bytes and there are %d more goroutines", n, i-n, b-b0, g-g0)
		if round == 0 {
			first = msg
		}
		if round == 2 {
			return fmt.Errorf("memory is not bounded: %s; %s", first, msg)
		}
		b0, g0 = b, g
	}
}

// install lets all requests be answered; call the result to undo that.
func install(real bool, answer func(i int, r *httpx.Req) httpx.Answer) func() {
	if real {
		p := &httpx.Pipes{Answer: answer}
		if undo, ok := p.Install(); ok {
			return func() {
				undo()
				synctest.Wait()
			}
		}
	}
	return (&httpx.Transport{Forget: true, Answer: answer}).Install()
}

// Step is a part of a cycle.
type Step struct {
	Op string `json:"op"` // event, err, again, mute, timing, gauge, complete, run, panic, kv, get, http, drain, sleep; api, restart
	N  int    `json:"n"`
	Ns int64  `json:"ns,omitempty"`
}

// Stream is a life of a stream with sinks.
type Stream struct {
	Sinks   []string       `json:"sinks"`
	D       int64          `json:"d"`      // polling sink
	Retain  int            `json:"retain"` // tenths of D
	Steps   []Step         `json:"steps"`
	Gap     int64          `json:"gap"` // between cycles
	Answers []httpx.Answer `json:"answers,omitempty"`
	Again   bool           `json:"again,omitempty"` // everything is stopped and made anew in each cycle
	Real    bool           `json:"real,omitempty"`  // connections are made and kept, as they really are
}

func (c Stream) has(s string) bool {
	for _, x := range c.Sinks {
		if x == s {
			return true
		}
	}
	return false
}

func (c Stream) run() error {
	if c.D < int64(time.Second) || c.Retain < 0 {
		return nil
	}
	defer install(c.Real, func(i int, r *httpx.Req) httpx.Answer {
		if len(c.Answers) == 0 {
			return httpx.Answer{Kind: "ok"}
		}
		return c.Answers[i%len(c.Answers)]
	})()
	name := func(parts ...interface{}) string { return fresh(parts...) }
	if c.has("statsd") {
		// It keeps what it has to send for each name, on purpose.
		name = func(parts ...interface{}) string { return fmt.Sprint(parts[1:]...) }
	}
	var st *health.Stream
	var polling *health.JsonPollingSink
	var sd *health.StatsDSink
	var stops []func()
	start := func() error {
		st = health.NewStream()
		st.KeyValue("stream", "x")
		for _, s := range c.Sinks {
			switch s {
			case "polling":
				polling = health.NewJsonPollingSink(time.Duration(c.D), time.Duration(c.D/10)*time.Duration(c.Retain))
				st.AddSink(polling)
				stops = append(stops, polling.ShutdownServer)
			case "statsd":
				conn, err := net.ListenPacket("udp", "127.0.0.1:0")
				if err != nil {
					return core.Inconclusive("%v", err)
				}
				stops = append(stops, func() { conn.Close() })
				if sd, err = health.NewStatsDSink(conn.LocalAddr().String(), nil); err != nil {
					return core.Inconclusive("%v", err)
				}
				st.AddSink(sd)
				stops = append(stops, sd.Stop)
			case "librato":
				l := librato.New("user", "key", "p")
				st.AddSink(l)
				stops = append(stops, l.Stop)
			case "bugsnag":
				b := bugsnag.NewSink(&bugsnag.Config{APIKey: "key", Endpoint: "http://bugsnag.test/"})
				st.AddSink(b)
				stops = append(stops, b.ShutdownServer)
			case "writer":
				st.AddSink(&health.WriterSink{Writer: io.Discard})
			case "json":
				st.AddSink(&health.JsonWriterSink{Writer: io.Discard})
			case "reporter":
				r := runtime_metrics.NewRuntimeMetrics(st, &runtime_metrics.Options{Interval: 20 * time.Second, Memory: true, GC: true, Goroutines: true})
				r.Start()
				stops = append(stops, r.Stop)
			}
		}
		return nil
	}
	stop := func() {
		for _, f := range stops {
			f()
		}
		stops, st, polling, sd = nil, nil, nil, nil
	}
	if err := start(); err != nil {
		return err
	}
	defer func() { stop(); time.Sleep(time.Hour); synctest.Wait() }()
	// After a rest, what was kept on purpose has been given up.
	rest := func() {
		for n := 0; n < c.Retain/10+3; n++ {
			time.Sleep(time.Duration(c.D))
			st.Event("rest")
		}
		time.Sleep(2 * time.Minute)
	}
	return grows(4, 24, func(i int) error {
		var last error
		for k, s := range c.Steps {
			for n := 0; n < s.N; n++ {
				at := fmt.Sprint(k, "-", n)
				job := st.NewJob(name(i, "job", at))
				var em health.EventReceiver = job
				if n%3 == 2 {
					em = st
				}
				kvs := health.Kvs{fresh(i, at): fresh(i, "v", at)}
				switch s.Op {
				case "event":
					em.EventKv(name(i, "event", at), kvs)
				case "err":
					last = em.EventErrKv(name(i, "event", at), errors.New(fresh(i, "err", at)), kvs)
				case "again":
					if last != nil {
						em.EventErr(name(i, "event", at), last)
					}
				case "mute":
					em.EventErr(name(i, "event", at), health.Mute(errors.New(fresh(i, "err", at))))
				case "timing":
					em.TimingKv(name(i, "event", at), int64(i*1000+n), kvs)
				case "gauge":
					em.GaugeKv(name(i, "event", at), float64(i), kvs)
				case "complete":
					job.CompleteKv(health.CompletionStatus(n%5), kvs)
				case "run":
					job.Run(func() error { return errors.New(fresh(i, "err", at)) })
				case "panic":
					func() {
						defer func() { recover() }()
						job.Run(func() error { panic(fresh(i, "panic", at)) })
					}()
				case "kv":
					job.KeyValue(fresh(i, at), fresh(i, "v", at))
					if !c.has("reporter") { // (which emits at the same time)
						st.KeyValue("stream", fresh(i, "s", at))
					}
					job.Event(name(i, "event", at))
				case "get":
					if polling != nil {
						polling.GetMetrics()
					}
				case "http":
					if polling != nil {
						polling.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/health", nil))
					}
				case "drain":
					if sd != nil {
						sd.Drain()
					}
				}
			}
			time.Sleep(time.Duration(s.Ns))
		}
		if c.Again {
			stop()
		}
		time.Sleep(time.Duration(c.Gap))
		if c.Again {
			return start()
		}
		return nil
	}, rest)
}

func kinds(steps []Step) (l []string) {
	for _, s := range steps {
		l = append(l, s.Op)
	}
	return
}

func answers(t *rapid.T) (as []httpx.Answer) {
	if core.Chance(t, "faults", 1, 2) {
		for n := 1 + core.Uniform(t, "answers", 4); n > 0; n-- {
			as = append(as, httpx.GenAnswer(t, true))
		}
	}
	return
}

func TestC33_stream(t *testing.T) {
	core.Check(t, core.Sub[Stream]{
		Bubble: true,
		Gen: func(t *rapid.T) (c Stream) {
			for _, s := range []string{"polling", "librato", "bugsnag", "writer", "json", "reporter"} {
				if core.Chance(t, s, 2, 5) {
					c.Sinks = append(c.Sinks, s)
				}
			}
			if core.Chance(t, "statsd", 1, 6) {
				c.Sinks = append(c.Sinks, "statsd")
			}
			c.D = core.Pick(t, "d", int64(time.Second), int64(10*time.Second), int64(time.Minute))
			c.Retain = core.Pick(t, "retain", 10, 5, 15, 20, 30, 50)
			for n := 1 + core.Uniform(t, "steps", 6); n > 0; n-- {
				s := Step{Op: core.Pick(t, "op", "event", "err", "again", "mute", "timing", "gauge", "complete", "run", "panic", "kv", "get", "http", "drain", "sleep"), N: 1 + core.Uniform(t, "n", 4)}
				if core.Chance(t, "wait", 1, 2) {
					s.Ns = core.Pick(t, "ns", c.D/7, c.D, c.D/2+1, int64(31*time.Second))
				}
				c.Steps = append(c.Steps, s)
			}
			c.Gap = core.Pick(t, "gap", c.D, c.D+c.D/3, 2*c.D, int64(45*time.Second), int64(5*time.Minute))
			if c.has("librato") || c.has("bugsnag") {
				// Requests that are never answered take up to a minute each.
				c.Answers = answers(t)
				if len(c.Answers) > 0 {
					c.Gap = int64(time.Hour)
				}
			}
			c.Again = core.Chance(t, "again", 1, 5)
			c.Real = (c.has("librato") || c.has("bugsnag")) && core.Chance(t, "real", 1, 2)
			return
		},
		Run: func(c Stream) error { return c.run() },
		Classify: func(c Stream) (bool, []string) {
			n := 0
			for _, s := range c.Steps {
				if s.Op != "get" && s.Op != "http" && s.Op != "drain" && s.Op != "sleep" {
					n += s.N
				}
			}
			return n > 0 && len(c.Sinks) > 0, append(kinds(c.Steps), c.Sinks...)
		},
	})
}

// Daemon is a life of a healthd.
type Daemon struct {
	D       int64          `json:"d"`
	Hosts   int            `json:"hosts"`
	Names   int            `json:"names"` // so many new jobs, events, timers and gauges in each interval of a host
	Keep    int            `json:"keep"`  // so many intervals in an answer
	Fresh   bool           `json:"fresh"` // hosts are restarted in each interval
	Serve   int            `json:"serve"` // polls in each interval that are answered with data
	Steps   []Step         `json:"steps"`
	Answers []httpx.Answer `json:"answers,omitempty"` // other polls
	Real    bool           `json:"real,omitempty"`    // connections are made and kept, as they really are
}

// served makes one host's document.
func (c Daemon) served(h int, now time.Time) string {
	type obj = map[string]interface{}
	maps := func(i, n int) obj {
		o := obj{"timers": obj{}, "gauges": obj{}, "events": obj{}, "event_errs": obj{}}
		for ; n > 0; n-- {
			x := fresh(i, "n", n, "h", h)
			o["events"].(obj)[x] = 1
			o["gauges"].(obj)[x] = 1
			o["event_errs"].(obj)[x] = obj{"count": 1}
			o["timers"].(obj)[x] = obj{"count": 1, "nanos_sum": 1, "nanos_sum_squares": 1, "nanos_min": 1, "nanos_max": 1}
		}
		return o
	}
	at := now.Truncate(time.Duration(c.D))
	var aggs []interface{}
	for k := c.Keep - 1; k >= 0; k-- {
		start := at.Add(-time.Duration(k) * time.Duration(c.D))
		i := int(start.Unix())
		o := maps(i, c.Names)
		j := maps(i, 1)
		for k, v := range (obj{"count": 1, "nanos_sum": 1, "nanos_sum_squares": 1, "nanos_min": 1, "nanos_max": 1, "count_success": 1}) {
			j[k] = v
		}
		o["jobs"] = obj{fresh(i, "job"): j}
		o["interval_start"], o["serial_number"] = start, i
		aggs = append(aggs, o)
	}
	id := "i"
	if c.Fresh {
		id = fresh(at.Unix())
	}
	b, err := json.Marshal(obj{"instance_id": id, "interval_duration": c.D, "aggregations": aggs})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func (c Daemon) run() error {
	if c.D < int64(10*time.Minute) || c.Hosts < 1 || c.Keep < 1 || c.Keep > 5 {
		return nil
	}
	const addr = "api.test:1"
	d := time.Duration(c.D)
	var mu sync.Mutex
	polls := map[string]int{}
	from := time.Now()
	defer install(c.Real, func(i int, r *httpx.Req) httpx.Answer {
		mu.Lock()
		defer mu.Unlock()
		if at := time.Now().Truncate(d); !at.Equal(from) {
			from, polls = at, map[string]int{}
		}
		polls[r.URL]++
		if n := polls[r.URL]; n <= c.Serve {
			var h int
			fmt.Sscanf(r.URL, "http://h%d", &h)
			return httpx.Answer{Kind: "status", Status: 200, Body: core.Str(c.served(h, time.Now()))}
		} else if len(c.Answers) > 0 {
			return c.Answers[n%len(c.Answers)]
		}
		return httpx.Answer{Kind: "refused"}
	})()
	var hosts []string
	for i := 0; i < c.Hosts; i++ {
		hosts = append(hosts, fmt.Sprintf("h%d.test:1", i))
	}
	hd := healthd.StartNewHealthD(hosts, addr, health.NewStream())
	defer manners.Forget(addr)
	defer func() {
		hd.Stop()
		time.Sleep(time.Minute)
		synctest.Wait()
	}()
	api, _ := manners.Handler(addr)
	if api == nil {
		return fmt.Errorf("the API is not served")
	}
	retained := int(2*time.Hour/d) + c.Keep + 8 // intervals
	return grows(retained, 14, func(i int) error {
		end := time.Now().Truncate(d).Add(d)
		for _, s := range c.Steps {
			for n := 0; n < s.N; n++ {
				rw := httptest.NewRecorder()
				api.ServeHTTP(rw, httptest.NewRequest("GET", "/healthd/"+s.Op, nil))
				if rw.Code != http.StatusOK {
					return fmt.Errorf("GET %s: %d", s.Op, rw.Code)
				}
			}
			time.Sleep(time.Duration(s.Ns))
		}
		time.Sleep(time.Until(end.Add(d / 3)))
		return nil
	}, func() {})
}

func TestC33_healthd(t *testing.T) {
	core.Check(t, core.Sub[Daemon]{
		Bubble: true,
		Gen: func(t *rapid.T) (c Daemon) {
			c.D = int64(core.Pick(t, "d", time.Hour, 30*time.Minute, 20*time.Minute))
			c.Hosts = 1 + core.Uniform(t, "hosts", 3)
			c.Names = core.Uniform(t, "names", 3)
			c.Keep = 1 + core.Uniform(t, "keep", 5)
			c.Fresh = core.Chance(t, "fresh", 1, 2)
			c.Serve = 1 + core.Uniform(t, "serve", 4)
			for n := core.Uniform(t, "steps", 4); n > 0; n-- {
				c.Steps = append(c.Steps, Step{Op: core.Pick(t, "op", "jobs", "hosts", "aggregations", "aggregations/overall", "jobs?sort=count&limit=2"), N: 1 + core.Uniform(t, "n", 3), Ns: core.Pick[int64](t, "ns", 0, 1e9, 3e9, 60e9)})
			}
			if core.Chance(t, "faults", 1, 2) {
				c.Answers = answers(t)
			}
			c.Real = core.Chance(t, "real", 1, 4)
			return
		},
		Run: func(c Daemon) error { return c.run() },
		Classify: func(c Daemon) (bool, []string) {
			return true, kinds(c.Steps)
		},
	})
}
