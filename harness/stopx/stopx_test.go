// Package stopx checks that sinks and reporters stop: soon, with nothing left running, and for good.
package stopx

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/httpx"
	"verif/harness/rec"
)

func init() { core.Quiet() }

// Op is a step before the stop.
type Op struct {
	Op string `json:"op"` // emit, sleep, get
	N  int    `json:"n,omitempty"`
	Ns int64  `json:"ns,omitempty"`
}

// Case is a life that ends in a stop.
type Case struct {
	Interval int64          `json:"interval,omitempty"` // polling sink and reporter
	Ops      []Op           `json:"ops"`
	Answers  []httpx.Answer `json:"answers,omitempty"`
	Conc     int            `json:"conc,omitempty"` // emissions at the same time as the stop
	Gets     int            `json:"gets,omitempty"` // requests for data at the same time as the stop
	After    int            `json:"after,omitempty"`
	Slow     int64          `json:"slow,omitempty"` // the reporter's sink takes so long
	Again    int            `json:"again,omitempty"`
}

const sec = int64(1e9)

func emit(s health.Sink, i int) {
	kvs := map[string]string{"k": "v"}
	switch i % 6 {
	case 0, 1:
		s.EmitEventErr("j", "e", &health.UnmutedError{Err: errors.New("x")}, kvs)
	case 2:
		s.EmitEvent("j", "e", kvs)
	case 3:
		s.EmitTiming("j", "e", int64(i), kvs)
	case 4:
		s.EmitGauge("j", "e", 1, kvs)
	default:
		s.EmitComplete("j", health.Success, int64(i), kvs)
	}
}

// bounded runs f and tells if it has not returned after max.
func bounded(what string, max time.Duration, f func()) error {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return nil
	case <-time.After(max):
		return fmt.Errorf("%s has not returned after %v", what, max)
	}
}

// sent is what the transport was asked so far, and how many of these requests are still going on.
func sent(tr *httpx.Transport) string {
	return fmt.Sprintf("%d requests", len(tr.Reqs()))
}

// over is set when the stop has returned, and late counts the requests that began after that.
var over, late atomic.Int32

func (c Case) transport() *httpx.Transport {
	over.Store(0)
	late.Store(0)
	return &httpx.Transport{Limit: 20000, Answer: func(i int, r *httpx.Req) httpx.Answer {
		late.Add(over.Load())
		if len(c.Answers) == 0 {
			return httpx.Answer{Kind: "ok"}
		}
		return c.Answers[i%len(c.Answers)]
	}}
}

// live runs the case up to the stop, stops, and looks at what is sent later. The queue takes room emissions.
func (c Case) live(sink health.Sink, stop func(), max time.Duration, room int, sent func() string) error {
	total := 0
	for _, op := range c.Ops {
		switch op.Op {
		case "emit":
			for i := 0; i < op.N; i++ {
				emit(sink, total)
				total++
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		}
	}
	conc := make(chan bool)
	n := c.Conc
	if total+n > room {
		n = room - total
	}
	go func() {
		for i := 0; i < n; i++ {
			emit(sink, i)
		}
		close(conc)
	}()
	if err := bounded("stopping", max, func() { stop(); over.Store(1) }); err != nil {
		return err
	}
	if total < room {
		<-conc
		total += max0(n)
	}
	synctest.Wait()
	before := sent()
	for i := 0; i < c.After && total < room; i++ {
		emit(sink, i)
		total++
	}
	time.Sleep(10 * time.Minute)
	synctest.Wait()
	if after := sent(); after != before {
		return fmt.Errorf("it has stopped after %s, but later it was %s", before, after)
	}
	if n := late.Load(); n > 0 {
		return fmt.Errorf("%d requests were begun after the stop had returned", n)
	}
	return nil
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func genOps(t *rapid.T, maxEmit int, sleeps ...int64) (ops []Op) {
	for k := core.Len(t, "ops", 0, 12); k > 0; k-- {
		switch core.Uniform(t, "op", 2) {
		case 0:
			op := Op{Op: "emit", N: 1 + core.Uniform(t, "n", 5)}
			if core.Chance(t, "burst", 1, 5) {
				op.N = 1 + core.Uniform(t, "burstN", maxEmit)
			}
			ops = append(ops, op)
		default:
			ns := core.Pick(t, "ns", sleeps...) + int64(core.Uniform(t, "odd", 3)) - 1
			if ns < 0 {
				ns = 0
			}
			ops = append(ops, Op{Op: "sleep", Ns: ns})
		}
	}
	return
}

func genAnswers(t *rapid.T) (as []httpx.Answer) {
	for k := core.Uniform(t, "answers", 6); k > 0; k-- {
		as = append(as, httpx.GenAnswer(t, true))
	}
	return
}

func classify(c Case) (bool, []string) {
	var l []string
	n := 0
	for _, op := range c.Ops {
		if op.Op == "emit" {
			n += op.N
		}
	}
	for _, a := range c.Answers {
		if a.Blocks() {
			l = append(l, "endpoint that never answers")
			break
		}
	}
	if n > 3000 {
		l = append(l, "thousands queued")
	}
	if c.Conc > 0 {
		l = append(l, "emissions while stopping")
	}
	if c.Gets > 0 {
		l = append(l, "requests while stopping")
	}
	return n > 0 || c.Gets > 0 || len(c.Ops) > 2, l
}

func TestC30_bugsnag(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) Case {
			return Case{Ops: genOps(t, 30, 1, 1e6, sec, 29*sec, 30*sec, 31*sec, 95*sec), Answers: genAnswers(t), Conc: core.Uniform(t, "conc", 8), After: core.Uniform(t, "after", 4)}
		},
		Run: func(c Case) error {
			tr := c.transport()
			defer tr.Install()()
			sink := bugsnag.NewSink(&bugsnag.Config{APIKey: "k"})
			// Up to 25 reports wait, and each takes 30 s at most.
			return c.live(sink, sink.ShutdownServer, 20*time.Minute, 25, func() string { return sent(tr) })
		},
		Classify: classify,
	})
}

func TestC30_librato(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) Case {
			return Case{Ops: genOps(t, 3000, 1, 1e6, sec, 14*sec, 15*sec, 30*sec, 45*sec, 95*sec), Answers: genAnswers(t), Conc: core.Uniform(t, "conc", 8), After: core.Uniform(t, "after", 4)}
		},
		Run: func(c Case) error {
			tr := c.transport()
			defer tr.Install()()
			sink := librato.New("u", "k", "p")
			return c.live(sink, sink.Stop, 20*time.Minute, 4000, func() string { return sent(tr) })
		},
		Classify: classify,
	})
}

func TestC30_polling(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) Case {
			return Case{Interval: core.Pick(t, "interval", sec, 2*sec, 60*sec), Ops: genOps(t, 9000, 1, 1e6, sec, 2*sec, 30*sec, 60*sec, 3600*sec),
				Conc: core.Uniform(t, "conc", 8), Gets: core.Uniform(t, "gets", 4), After: core.Uniform(t, "after", 4)}
		},
		Run: func(c Case) error {
			sink := health.NewJsonPollingSink(time.Duration(c.Interval), 5*time.Duration(c.Interval))
			var answered int32
			request := func(i int) {
				if i%2 == 0 {
					sink.GetMetrics()
				} else {
					rw := httptest.NewRecorder()
					sink.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
				}
				atomic.AddInt32(&answered, 1)
			}
			err := c.live(sink, func() {
				for i := 0; i < c.Gets; i++ {
					go request(i)
				}
				sink.ShutdownServer()
			}, 10*time.Second, 4000, func() string { return "" })
			if err != nil {
				return err
			}
			if n := atomic.LoadInt32(&answered); int(n) != c.Gets {
				return fmt.Errorf("%d of %d requests that were made while it stopped were answered", n, c.Gets)
			}
			return bounded("a request after the stop", 10*time.Second, func() { request(0); request(1) })
		},
		Classify: classify,
	})
}

func TestC30_reporter(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) Case {
			c := Case{Interval: core.Pick[int64](t, "interval", 1e6, 1e9, 5e9, 60e9), Again: core.Uniform(t, "again", 3), Slow: core.Pick[int64](t, "slow", 0, 0, 1e5, 1e9, 3e9)}
			for k := core.Len(t, "ops", 0, 4); k > 0; k-- {
				c.Ops = append(c.Ops, Op{Op: "sleep", Ns: c.Interval*int64(core.Uniform(t, "times", 4)) + core.Pick[int64](t, "odd", 0, 0, 1, c.Interval/2)})
			}
			return c
		},
		Run: func(c Case) error {
			sink := &rec.Sink{}
			if c.Slow > 0 {
				sink.Before = func() { time.Sleep(time.Duration(c.Slow)) }
			}
			stream := health.NewStream()
			stream.AddSink(sink)
			rm := runtime_metrics.NewRuntimeMetrics(stream, &runtime_metrics.Options{Interval: time.Duration(c.Interval), Goroutines: true, Cgo: true, GC: true})
			for i := 0; i <= c.Again; i++ {
				rm.Start()
				for _, op := range c.Ops {
					time.Sleep(time.Duration(op.Ns))
				}
				// If reports take longer than an interval, it is left to chance which comes first, the stop or another report.
				if err := bounded("Stop", time.Minute+1000*time.Duration(c.Slow), rm.Stop); err != nil {
					return err
				}
				n := sink.Len()
				time.Sleep(3*time.Duration(c.Interval) + 20*time.Duration(c.Slow))
				if m := sink.Len(); m != n {
					return fmt.Errorf("%d gauges were reported after Stop had returned", m-n)
				}
			}
			return nil
		},
		Classify: func(c Case) (bool, []string) { return len(c.Ops) > 0, nil },
	})
}

// ServerCase is a polling sink with its server, on the real loopback interface.
type ServerCase struct {
	Servers int  `json:"servers"`
	Wait    bool `json:"wait"` // until they are up
	Reqs    int  `json:"reqs"`
	Keep    bool `json:"keep"` // connections stay open
	Emit    int  `json:"emit"`
	Reuse   bool `json:"reuse"` // the address, by another sink
	// Clients that are connected when it is stopped: silent; half (in the middle of a request); again (in the middle of a second one);
	// unread (does not read the answers to its requests)
	Clients []string `json:"clients,omitempty"`
}

// client connects to the server and leaves it waiting.
func client(kind, addr string) (net.Conn, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, core.Inconclusive("%v", err)
	}
	const request = "GET /health HTTP/1.1\r\nHost: x\r\n"
	if kind == "again" {
		io.WriteString(c, request+"\r\n")
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		resp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			c.Close()
			return nil, fmt.Errorf("GET /health: %v", err)
		}
		io.Copy(io.Discard, resp.Body)
		kind = "half"
	}
	if kind == "unread" {
		c.(*net.TCPConn).SetReadBuffer(4096)
		io.WriteString(c, strings.Repeat(request+"\r\n", 20))
		time.Sleep(50 * time.Millisecond) // until the server is stuck, mostly
	}
	if kind == "half" {
		io.WriteString(c, request)
	}
	return c, nil
}

// served tells whether the client's request is still answered if it is finished now.
func served(kind string, c net.Conn) error {
	if kind == "unread" {
		// What had been written may still be on its way.
		return nil
	}
	if kind == "silent" {
		io.WriteString(c, "GET /health HTTP/1.1\r\nHost: x\r\n")
	}
	io.WriteString(c, "\r\n")
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	b, err := io.ReadAll(c)
	if len(b) > 0 {
		return fmt.Errorf("a request finished after ShutdownServer is answered with %.100q", b)
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return fmt.Errorf("a connection stays open 10 s after ShutdownServer")
	}
	return nil
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	return l.Addr().String()
}

func up(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// until waits for up to 10 s.
func until(f func() bool) bool {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// serving are the goroutines that have to do with the sink or an HTTP server.
func serving() (n int, all string) {
	buf := make([]byte, 4<<20)
	all = string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(all, "\n\n")[1:] {
		if strings.Contains(g, "gocraft/health.") || strings.Contains(g, "net/http.(*Server).Serve") || strings.Contains(g, "net/http.(*conn).serve") {
			n++
		}
	}
	return
}

func get(cl *http.Client, addr string) (string, error) {
	resp, err := cl.Get("http://" + addr + "/health")
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err == nil && (resp.StatusCode != 200 || !json.Valid(b)) {
		err = fmt.Errorf("%d %.200s", resp.StatusCode, b)
	}
	return string(b), err
}

func (c ServerCase) run() error {
	tp := &http.Transport{DisableKeepAlives: !c.Keep}
	cl := &http.Client{Transport: tp, Timeout: 10 * time.Second}
	defer tp.CloseIdleConnections()
	base, _ := serving()
	sink := health.NewJsonPollingSink(time.Minute, time.Hour)
	var addrs []string
	for i := 0; i < c.Servers; i++ {
		a := freeAddr()
		if a == "" {
			sink.ShutdownServer()
			return core.Inconclusive("no free address")
		}
		addrs = append(addrs, a)
		sink.StartServer(a)
	}
	for i := 0; i < c.Emit; i++ {
		emit(sink, i)
	}
	for _, kind := range c.Clients {
		for i := 0; i < 300 && kind == "unread"; i++ {
			sink.EmitEvent("job", fmt.Sprint(strings.Repeat("long", 300), i), nil)
		}
	}
	stopped := false
	stop := func() error {
		stopped = true
		return bounded("ShutdownServer", 10*time.Second, sink.ShutdownServer)
	}
	defer func() {
		if !stopped {
			stop()
		}
	}()
	if c.Wait {
		for _, a := range addrs {
			if !until(func() bool { return up(a) }) {
				return core.Inconclusive("the server at %s did not come up", a)
			}
			for i := 0; i < c.Reqs; i++ {
				if _, err := get(cl, a); err != nil {
					return fmt.Errorf("GET /health: %v", err)
				}
			}
		}
	}
	var conns []net.Conn
	defer func() {
		for _, cn := range conns {
			cn.Close()
		}
	}()
	if c.Wait && len(addrs) > 0 {
		for i, kind := range c.Clients {
			cn, err := client(kind, addrs[i%len(addrs)])
			if err != nil {
				return err
			}
			conns = append(conns, cn)
		}
		// Once a later client has been served, these have all been accepted.
		for _, a := range addrs {
			cn, err := client("again", a)
			if err != nil {
				return err
			}
			cn.Close()
		}
	}
	if err := stop(); err != nil {
		return err
	}
	for i, cn := range conns {
		if err := served(c.Clients[i], cn); err != nil {
			return err
		}
	}
	for _, a := range addrs {
		if !until(func() bool { return !up(a) }) {
			return fmt.Errorf("the server still accepts connections 10 s after ShutdownServer")
		}
	}
	if !c.Wait {
		time.Sleep(20 * time.Millisecond)
		for _, a := range addrs {
			if !until(func() bool { return !up(a) }) {
				return fmt.Errorf("a server that was started just before ShutdownServer has come up and accepts connections")
			}
		}
	}
	var left int
	var all string
	if !until(func() bool { left, all = serving(); return left <= base }) {
		return fmt.Errorf("%d goroutines are left:\n%s", left-base, all)
	}
	if c.Reuse && len(addrs) > 0 {
		other := health.NewJsonPollingSink(time.Minute, time.Hour)
		defer other.ShutdownServer()
		other.StartServer(addrs[0])
		if !until(func() bool { return up(addrs[0]) }) {
			return fmt.Errorf("another sink cannot serve at the same address afterwards")
		}
		if _, err := get(cl, addrs[0]); err != nil {
			return fmt.Errorf("GET /health of another sink at the same address: %v", err)
		}
	}
	return nil
}

func TestC30_server(t *testing.T) {
	core.Check(t, core.Sub[ServerCase]{
		Gen: func(t *rapid.T) ServerCase {
			c := ServerCase{Servers: core.Pick(t, "servers", 1, 1, 1, 2, 0), Wait: core.Chance(t, "wait", 3, 4), Reqs: core.Uniform(t, "reqs", 3), Keep: core.Chance(t, "keep", 1, 2),
				Emit: core.Uniform(t, "emit", 20), Reuse: core.Chance(t, "reuse", 1, 2)}
			for n := core.Uniform(t, "clients", 4); n > 0; n-- {
				c.Clients = append(c.Clients, core.Pick(t, "client", "silent", "half", "again", "unread"))
			}
			return c
		},
		Run: ServerCase.run,
		Classify: func(c ServerCase) (bool, []string) {
			var l []string
			if c.Keep && c.Reqs > 0 {
				l = append(l, "connections kept open")
			}
			if c.Wait && c.Servers > 0 {
				l = append(l, c.Clients...)
			}
			if !c.Wait {
				l = append(l, "stopped while starting")
			}
			return c.Servers > 0, l
		},
	})
}
