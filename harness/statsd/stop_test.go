package statsd

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// StopCase is a sink that is stopped after Ops (emit, sleep, drain, gate, open).
type StopCase struct {
	Case
	Before int   `json:"before"` // emissions by somebody else that were begun before the stop
	Conc   int   `json:"conc"`   // emissions at the same time as the stop
	Wait   int64 `json:"wait"`   // how long the loop is held while the stop waits, if it is held
	After  int   `json:"after"`
}

func (c StopCase) run() error {
	tidy()
	freshServer("127.0.0.1")
	var mu sync.Mutex
	var held chan bool
	s, nerr := health.NewStatsDSink(server.Addr(), c.Opts.real(func(k string) {
		mu.Lock()
		ch := held
		mu.Unlock()
		if ch != nil && strings.HasPrefix(k, "gate") {
			<-ch
		}
	}))
	if nerr != nil {
		return core.Inconclusive("NewStatsDSink: %v", nerr)
	}
	open := func() {
		mu.Lock()
		if held != nil {
			close(held)
			held = nil
		}
		mu.Unlock()
	}
	defer open()
	total, gates := 0, 0
	var wg sync.WaitGroup
	for _, op := range c.Ops {
		switch op.Op {
		case "emit":
			for i := 0; i < op.E.times() && total < 3000; i++ {
				op.E.at(i).to(s)
				total++
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "gate":
			mu.Lock()
			if held == nil {
				held = make(chan bool)
			}
			mu.Unlock()
			Emit{Kind: "complete", Job: core.Str(fmt.Sprintf("gate%d", gates))}.to(s)
			gates++
			synctest.Wait()
		case "open":
			open()
			synctest.Wait()
		case "drain":
			wg.Add(1)
			go func() { defer wg.Done(); s.Drain() }()
			synctest.Wait()
		}
	}
	e := Emit{Kind: "event", Job: "b", Event: "before"}
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < c.Before; i++ {
			e.to(s)
		}
	}()
	synctest.Wait()
	go func() {
		defer wg.Done()
		for i := 0; i < c.Conc; i++ {
			e.to(s)
		}
	}()
	stopped := make(chan bool)
	go func() { s.Stop(); close(stopped) }()
	synctest.Wait()
	time.Sleep(time.Duration(c.Wait))
	open()
	if err := within("Stop", func() { <-stopped }); err != nil {
		return err
	}
	if err := within("a Drain or an emission that was begun before Stop", wg.Wait); err != nil {
		return err
	}
	mark := func(name string) error {
		conn, err := net.Dial("udp", server.Addr())
		if err != nil {
			return core.Inconclusive("%v", err)
		}
		defer conn.Close()
		conn.Write([]byte(name))
		if !server.Await(realPatience, func(g [][]byte) bool { return len(g) > 0 && bytes.Equal(g[len(g)-1], []byte(name)) }) {
			if server.dropped() > 0 {
				return core.Inconclusive("the kernel dropped datagrams")
			}
			for _, g := range server.Grams() {
				if bytes.Equal(g, []byte(name)) {
					return nil
				}
			}
			return core.Inconclusive("the mark has not arrived")
		}
		return nil
	}
	if err := mark("MARK1"); err != nil {
		return err
	}
	for i := 0; i < c.After; i++ {
		Emit{Kind: "event", Job: "a", Event: "after"}.to(s)
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	if err := mark("MARK2"); err != nil {
		return err
	}
	grams := server.Grams()
	for i, g := range grams {
		if bytes.Equal(g, []byte("MARK1")) {
			if rest := grams[i+1:]; len(rest) != 1 {
				return fmt.Errorf("%d datagrams were sent after Stop had returned, the first one is %s", len(rest)-1, clip(string(rest[0])))
			}
		}
	}
	return nil
}

func TestC30_statsd(t *testing.T) {
	core.Check(t, core.Sub[StopCase]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) StopCase {
			c := StopCase{Before: core.Uniform(t, "before", 30), Conc: core.Uniform(t, "conc", 30), Wait: core.Pick[int64](t, "wait", 0, 0, 1e6, 1e8, 35e7, 4e9), After: core.Uniform(t, "after", 4)}
			if core.Chance(t, "full", 1, 5) {
				c.Before = 5000 + core.Uniform(t, "beforeN", 4000)
			}
			gated := false
			for k := core.Len(t, "n", 0, 20); k > 0; k-- {
				op := Op{Op: core.Pick(t, "op", "emit", "emit", "emit", "sleep", "sleep", "drain", "gate", "open")}
				switch op.Op {
				case "emit":
					op.E = genEmit(t, 0, 300)
				case "sleep":
					op.Ns = core.Pick[int64](t, "sleep", 1, 1e6, 5e7, 1e8-1, 1e8, 1e8+1, 25e7)
				case "gate":
					gated = true
				case "open":
					if !gated {
						continue
					}
					gated = false
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Run: StopCase.run,
		Classify: func(c StopCase) (bool, []string) {
			var l []string
			gated, drains := false, 0
			for _, op := range c.Ops {
				gated = op.Op == "gate" || gated && op.Op != "open"
				if op.Op == "drain" && gated {
					drains++
				}
			}
			if gated {
				l = append(l, "busy")
			}
			if drains > 0 {
				l = append(l, "drains pending")
			}
			if c.Before > 1000 {
				l = append(l, "full")
			}
			return len(c.Ops) > 0, l
		},
	})
}
