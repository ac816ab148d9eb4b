package statsd

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

const realPatience = 3 * time.Second

// Op is a step of a case.
type Op struct {
	Op string `json:"op"` // emit, sleep, drain (lines, datagrams); also gate, open, next, burst, settle, stop
	E  Emit   `json:"e,omitempty"`
	Ns int64  `json:"ns,omitempty"`
	N  int    `json:"n,omitempty"`
}

// Case is a history of one sink.
type Case struct {
	Opts Opts   `json:"opts"`
	Host string `json:"host,omitempty"` // 127.0.0.1 if empty, else ::1
	Bad  string `json:"bad,omitempty"`  // an address to be refused first
	Ops  []Op   `json:"ops"`
}

var cases int

// tidy closes the sockets that sinks of earlier cases have left to the garbage collector.
func tidy() {
	if cases++; cases%100 == 0 {
		runtime.GC()
	}
}

func within(what string, f func()) error {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return nil
	case <-time.After(5 * time.Second):
		return fmt.Errorf("%s has not returned after 5 s", what)
	}
}

// runPlain emits, drains and compares after every drain.
func (c Case) runPlain() error {
	tidy()
	if c.Bad != "" {
		if s, err := health.NewStatsDSink(c.Bad, c.Opts.real(nil)); err == nil {
			s.Stop()
			return fmt.Errorf("NewStatsDSink accepts %q, which isn't an address, without an error", c.Bad)
		}
	}
	host := "127.0.0.1"
	if c.Host != "" {
		host = "[::1]"
		if !IPv6 {
			return core.Inconclusive("no IPv6")
		}
	}
	freshServer(host)
	s, err := health.NewStatsDSink(server.Addr(), c.Opts.real(nil))
	if no := syscall.Errno(0); errors.As(err, &no) {
		return core.Inconclusive("NewStatsDSink: %v", err) // out of file descriptors, say
	}
	if err != nil {
		return fmt.Errorf("NewStatsDSink(%q) fails: %w", server.Addr(), err)
	}
	var want []Line
	check := func() error {
		n := len(want)
		var got []string
		var bad error
		server.Await(realPatience, func(g [][]byte) bool {
			got, bad = split(g)
			return bad != nil || len(got) >= n
		})
		if bad == nil {
			bad = compare(want, got)
		}
		if bad == nil && len(got) < n {
			bad = fmt.Errorf("drained, but only %d of %d lines have arrived; the first one missing is %s", len(got), n, clip(want[len(got)].String()))
		}
		return server.lost(bad)
	}
	finish := func(err error) error {
		if e := within("Stop", s.Stop); e != nil && err == nil {
			err = e
		}
		return err
	}
	for _, op := range c.Ops {
		switch op.Op {
		case "emit":
			for i := 0; i < op.E.times(); i++ {
				op.E.at(i).to(s)
				want = append(want, c.Opts.sent(op.E.at(i))...)
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "drain":
			if err := within("Drain", s.Drain); err != nil {
				return finish(err)
			}
			if err := check(); err != nil {
				return finish(err)
			}
		}
	}
	if err := within("Drain", s.Drain); err != nil {
		return finish(err)
	}
	if err := check(); err != nil {
		return finish(err)
	}
	if err := finish(nil); err != nil {
		return err
	}
	return check()
}

func genPlain(maxOps, maxName, maxRep int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Opts: genOpts(t)}
		if IPv6 && core.Chance(t, "v6", 1, 5) {
			c.Host = "::1"
		}
		if core.Chance(t, "bad", 1, 20) {
			c.Bad = core.Pick(t, "badAddr", "127.0.0.1", "127.0.0.1:70000", "[::1:8125", "::1:8125", "127.0.0.1:-1", "127.0.0.1:8125:8126", "[::1]", "[::1]:65536")
		}
		n := core.Len(t, "n", 1, maxOps)
		budget := 600000 // bytes
		for i := 0; i < n; i++ {
			op := Op{Op: "emit"}
			switch k := core.Uniform(t, "op", 40); {
			case k == 38:
				op = Op{Op: "drain"}
			case k == 39:
				op = Op{Op: "sleep", Ns: core.Pick[int64](t, "sleep", 1e6, 1e8-1, 1e8, 1e8+1, 2e8, 35e7)}
			default:
				op.E = genEmit(t, maxName, maxRep)
				b := 0
				for _, l := range c.Opts.sent(op.E) {
					b += l.bytes()
				}
				if op.E.Spread != 0 {
					b += 20
				}
				for op.E.Rep > 1 && op.E.Rep*b > budget {
					op.E.Rep /= 2
				}
				budget -= op.E.times() * b
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func labels(c Case) (emits, bytes, long int, l []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	if c.Host != "" {
		add("IPv6")
	}
	if c.Bad != "" {
		add("bad address")
	}
	for _, op := range c.Ops {
		if op.Op != "emit" {
			add(op.Op)
			continue
		}
		emits++
		for _, x := range c.Opts.lines(op.E) {
			if x.bytes() > limit {
				long++
				add("line>1440")
			} else {
				bytes += x.bytes() * op.E.times()
				if x.bytes() >= limit-2 {
					add("line at the limit")
				}
			}
		}
		add(op.E.Kind)
		if op.E.Spread != 0 && op.E.Rep > 100 {
			add("names>100")
		}
		if op.E.Rep > 8192 {
			add("burst>8192")
		}
	}
	if bytes > limit {
		add("several-datagrams")
	}
	return
}

func TestC15_lines(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    genPlain(60, 40, 100),
		Run:    Case.runPlain,
		Classify: func(c Case) (bool, []string) {
			emits, _, _, l := labels(c)
			return emits >= 3, l
		},
	})
}

func TestC16_datagrams(t *testing.T) {
	gen := genPlain(150, 1500, 9000)
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := gen(t)
			// aim at the limits: names such that a line, or what is in the buffer with it, has about 1440 bytes
			fill := 0
			for i := range c.Ops {
				if c.Ops[i].Op != "emit" {
					fill = 0
					continue
				}
				e := &c.Ops[i].E
				if e.Rep > 1 || !core.Chance(t, "aim", 1, 5) {
					for _, l := range c.Opts.sent(*e) {
						if n := l.bytes() * e.times(); n+fill > limit {
							fill = n % limit
						} else {
							fill += n
						}
					}
					continue
				}
				e.Kind = core.Pick(t, "aimKind", "event", "complete", "gauge")
				if c.Opts.SkipNest && c.Opts.SkipTop {
					e.Kind = "complete"
				}
				e.Job, e.Event, e.Nanos, e.Value, e.Status = "", "", 0, 1, 0
				if e.Kind == "complete" {
					e.Job = "j"
				} else {
					e.Event = "e"
				}
				base := c.Opts.lines(*e)[0].bytes()
				target := limit
				if core.Chance(t, "rest", 1, 2) {
					target = limit - fill
				}
				target += core.Uniform(t, "off", 5) - 2
				if n := target - base; n > 0 {
					pad := core.Str(strings.Repeat("p", n))
					if e.Kind == "complete" {
						e.Job += pad
					} else {
						e.Event += pad
					}
				}
				for _, l := range c.Opts.sent(*e) {
					if fill += l.bytes(); fill > limit {
						fill = l.bytes()
					}
				}
			}
			return c
		},
		Run: Case.runPlain,
		Classify: func(c Case) (bool, []string) {
			_, bytes, long, l := labels(c)
			return bytes > limit || long > 0, l
		},
	})
}

// runSchedule executes commands in an exactly known order: a gate stops the sink's loop while it handles an emission (in
// the sanitisation function), so that what is called meanwhile queues up in the order in which it was called.
func (c Case) runSchedule() (err error) {
	tidy()
	freshServer("127.0.0.1")
	var mu sync.Mutex
	closed := map[string]chan bool{}
	gate := func(s string) {
		mu.Lock()
		ch := closed[s]
		mu.Unlock()
		if ch != nil {
			<-ch
		}
	}
	open := func() {
		mu.Lock()
		for k, ch := range closed {
			close(ch)
			delete(closed, k)
		}
		mu.Unlock()
	}
	s, nerr := health.NewStatsDSink(server.Addr(), c.Opts.real(gate))
	if nerr != nil {
		return core.Inconclusive("NewStatsDSink: %v", nerr)
	}
	// main's lines are told from those of bursts by their keys
	own := func(g [][]byte, burst int) ([]string, error) {
		lines, err := split(g)
		if err != nil {
			return nil, err
		}
		var out []string
		for _, l := range lines {
			b := strings.Index(l, "burst")
			if burst < 0 && b < 0 || burst >= 0 && b >= 0 && strings.HasPrefix(l[b:], fmt.Sprintf("burst%d_", burst)) {
				out = append(out, l)
			}
		}
		return out, nil
	}
	var want []Line
	arrived := func(want []Line, burst int, what string) error {
		var got []string
		var bad error
		server.Await(realPatience, func(g [][]byte) bool {
			got, bad = own(g, burst)
			return bad != nil || len(got) >= len(want)
		})
		if bad == nil && len(got) > len(want) {
			got = got[:len(want)]
		}
		if bad == nil {
			bad = compare(want, got)
		}
		if bad == nil && len(got) < len(want) {
			bad = fmt.Errorf("%s, but only %d of %d lines emitted before have been sent; the first one missing is %s", what, len(got), len(want), clip(want[len(got)].String()))
		}
		return server.lost(bad)
	}
	var failed error
	fail := func(e error) {
		mu.Lock()
		if failed == nil && e != nil {
			failed = e
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	gates, bursts := 0, 0
	stopped := false
	gated := false
	queued := 0 // at most so many commands wait in the sink's queue; a caller would have to wait if it were full
	join := func() error {
		return within("a Drain or Stop call", func() { wg.Wait() })
	}
	emit := func(e Emit) {
		for i := 0; i < e.times(); i++ {
			e.at(i).to(s)
			want = append(want, c.Opts.sent(e.at(i))...)
		}
	}
	for _, op := range c.Ops {
		mu.Lock()
		bad := failed != nil
		mu.Unlock()
		if bad {
			break
		}
		if queued > 6000 && op.Op == "gate" || queued+op.E.times() > 6500 && op.Op == "emit" {
			continue
		}
		if gated || stopped {
			queued += 1 + op.N + op.E.times() + int(op.Ns/100e6)
		}
		switch op.Op {
		case "emit":
			emit(op.E)
		case "gate":
			if stopped {
				continue
			}
			// Not a line that could be dropped or skipped.
			name := fmt.Sprintf("gate%d", gates)
			gates++
			mu.Lock()
			closed[name] = make(chan bool)
			mu.Unlock()
			gated = true
			e := Emit{Kind: "complete", Job: core.Str(name)}
			want = append(want, c.Opts.sent(e)...)
			wg.Add(1)
			go func() { defer wg.Done(); e.to(s) }()
			synctest.Wait()
		case "next":
			// Opens the gate that the sink's loop is at; what is behind it stops at the next one.
			mu.Lock()
			for i := 0; i < gates; i++ {
				name := fmt.Sprintf("gate%d", i)
				if ch := closed[name]; ch != nil {
					close(ch)
					delete(closed, name)
					break
				}
			}
			shut := len(closed)
			mu.Unlock()
			if shut > 0 {
				synctest.Wait()
				continue
			}
			fallthrough
		case "open":
			open()
			gated = false
			if !stopped {
				queued = 0
			}
			if err := join(); err != nil {
				fail(err)
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "drain":
			if stopped {
				continue
			}
			before := want[:len(want):len(want)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.Drain()
				fail(arrived(before, -1, "Drain has returned"))
			}()
			synctest.Wait()
			if !gated {
				if err := join(); err != nil {
					fail(err)
				}
			}
		case "burst":
			if stopped {
				continue
			}
			id := bursts
			bursts++
			e := Emit{Kind: "complete", Job: core.Str(fmt.Sprintf("burst%d_", id)), Nanos: 5}
			var mine []Line
			for i := 0; i < op.N; i++ {
				mine = append(mine, c.Opts.sent(e)...)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < op.N; i++ {
					e.to(s)
				}
				s.Drain()
				fail(arrived(mine, id, "Drain has returned after a burst"))
			}()
			synctest.Wait()
		case "settle":
			if gated || stopped {
				continue
			}
			time.Sleep(200 * time.Millisecond)
			synctest.Wait()
			fail(arrived(want, -1, "200 ms have passed"))
		case "trickle":
			// What is older than 200 ms must have been sent, however steadily more is emitted.
			if gated || stopped {
				continue
			}
			type mark struct {
				at time.Time
				n  int
			}
			marks := []mark{{time.Now(), len(want)}}
			for i := 0; i < op.N; i++ {
				emit(op.E)
				marks = append(marks, mark{time.Now(), len(want)})
				time.Sleep(time.Duration(op.Ns))
				synctest.Wait()
				n := 0
				for _, m := range marks {
					if time.Since(m.at) >= 200*time.Millisecond {
						n = m.n
					}
				}
				if err := arrived(want[:n:n], -1, "200 ms have passed, with a steady trickle of emissions"); err != nil {
					fail(err)
					break
				}
			}
		case "stop":
			if stopped || bursts > 0 && gated {
				continue // a burst may not have come to its Drain yet
			}
			stopped = true
			wg.Add(1)
			go func() { defer wg.Done(); s.Stop() }()
			synctest.Wait()
		}
	}
	open()
	if err := join(); err != nil && failed == nil {
		return err
	}
	if !stopped {
		if err := within("Stop", s.Stop); err != nil && failed == nil {
			return err
		}
	}
	if failed != nil {
		return failed
	}
	lines, bad := own(server.Grams(), -1)
	if bad == nil {
		bad = compare(want, lines)
	}
	return server.lost(bad)
}

func genSchedule(t *rapid.T) Case {
	c := Case{Opts: Opts{Prefix: core.Str(core.Pick(t, "prefix", "", "pre")), SkipNest: core.Chance(t, "skip", 1, 6)}}
	n := core.Len(t, "n", 2, 60)
	for i := 0; i < n; i++ {
		var op Op
		switch k := core.Uniform(t, "op", 30); {
		case k < 12:
			op = Op{Op: "emit", E: genEmit(t, 0, 20)}
			if core.Chance(t, "bigEmit", 1, 400) {
				op.E.Job, op.E.Event, op.E.Rep = "a", "b", 1+core.Uniform(t, "bigReps", 6000)
			}
			if strings.Contains(string(op.E.Job+op.E.Event), "\n") {
				op.E.Job, op.E.Event = "a", "b"
			}
		case k < 16:
			op = Op{Op: "gate"}
		case k < 20:
			op = Op{Op: core.Pick(t, "opening", "open", "next")}
		case k < 25:
			op = Op{Op: "drain"}
		case k < 26:
			op = Op{Op: "sleep", Ns: core.Pick[int64](t, "sleep", 1e6, 1e8-1, 1e8, 1e8+1, 25e7)}
		case k < 27:
			op = Op{Op: "settle"}
		case k < 28:
			op = Op{Op: "trickle", N: 3 + core.Uniform(t, "times", 30), Ns: core.Pick[int64](t, "each", 1e7, 3e7, 5e7, 7e7, 99e6, 1e8, 11e7, 19e7), E: genEmit(t, 0, 0)}
			if op.E.Rep = 0; strings.Contains(string(op.E.Job+op.E.Event), "\n") {
				op.E.Job, op.E.Event = "a", "b"
			}
		case k < 29:
			op = Op{Op: "burst", N: 1 + core.Uniform(t, "burst", 60)}
			if core.Chance(t, "big", 1, 4) {
				op.N = 8100 + core.Uniform(t, "bigN", 300)
			}
		default:
			op = Op{Op: "stop"}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC17_drain(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    genSchedule,
		Run:    Case.runSchedule,
		Classify: func(c Case) (bool, []string) {
			var l []string
			seen := map[string]bool{}
			gated, held, maxHeld, stopHeld, nextHeld := false, 0, 0, false, false
			for _, op := range c.Ops {
				if !seen[op.Op] {
					seen[op.Op] = true
					l = append(l, op.Op)
				}
				switch op.Op {
				case "gate":
					gated = true
				case "open":
					gated, held = false, 0
				case "next":
					if gated && held > 0 {
						nextHeld = true
					}
				case "drain", "burst":
					if gated {
						held++
					}
				case "stop":
					stopHeld = stopHeld || gated && held > 0
				}
				if held > maxHeld {
					maxHeld = held
				}
			}
			if maxHeld > 1 {
				l = append(l, "several drains at once")
			}
			if nextHeld {
				l = append(l, "one of several gates opened while draining")
			}
			if stopHeld {
				l = append(l, "stop while draining")
			}
			return seen["emit"] && (seen["drain"] || seen["settle"] || seen["burst"] || seen["trickle"]), l
		},
	})
}
