package e2e

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

func init() { core.Quiet() }

func genNanos(t *rapid.T, l string) int64 {
	return core.Pick[int64](t, l, 0, 1, 999, 1000, 1001, 1999, 2000, 2001, 999999, 1000000, 1999999, 2000000, 2000001, 2999999, 1e9, 123456789, 1e12, 1<<62) +
		core.Pick[int64](t, l+"+", 0, 0, 0, 7, 500000)
}

func genJobName(t *rapid.T) core.Str {
	return core.Str(core.Pick(t, "base", "api", "poll", "jobs/x", "/healthd/jobs", "é", "日本", "a b", "A", "x.y", "Job", "100%", "%d%s", "\"q\"", "<b>", "web", "weblog") + core.Pick(t, "suffix", "", "", "1", "/2", " c", "_web", "%"))
}

func genJobs(t *rapid.T, rows int) []Job {
	n := core.Pick(t, "jobs", 0, 1, 2, 3, 5, 8, rows-6, rows-5, rows-4, rows-3, rows-2, rows-1, rows, rows+1, 2*rows)
	var js []Job
	for i := 0; i < n; i++ {
		j := Job{Name: genJobName(t), Success: core.Pick[int64](t, "success", 0, 1, 12, 1e6), Sum: genNanos(t, "sum"), Min: genNanos(t, "min"), Max: genNanos(t, "max"),
			Avg: float64(genNanos(t, "avg")), StdDev: float64(genNanos(t, "stddev")) / 4, Sq: 1e20}
		if core.Chance(t, "fractional", 1, 3) {
			j.Avg += 0.75
		}
		c := func(l string) int64 { return core.Pick[int64](t, l, 0, 0, 0, 1, 33) }
		j.Validation, j.Panic, j.Error, j.Junk = c("validation"), c("panic"), c("error"), c("junk")
		j.Count = j.Success + j.Validation + j.Panic + j.Error + j.Junk
		js = append(js, j)
	}
	return js
}

func genHosts(t *rapid.T, rows int) []Host {
	n := core.Pick(t, "hosts", 0, 1, 2, 3, 5, 8, rows-6, rows-5, rows-4, rows-3, rows-2, rows-1, rows, rows+1, 2*rows)
	var hs []Host
	for i := 0; i < n; i++ {
		h := Host{HostPort: fmt.Sprintf("%s%d:%d", core.Pick(t, "host", "web", "db-", "h.example.", "[::1]"), i, 5020+i)}
		switch core.Uniform(t, "state", 6) {
		case 0:
		case 1:
			h.Check, h.Nanos, h.Code, h.Err = 1e9+int64(core.Uniform(t, "at", 1e8)), genNanos(t, "nanos"), core.Pick(t, "code", 0, 200, 404), core.Pick(t, "err", "EOF", "unexpected end of JSON input", "Get \"http://x/health\": dial tcp: connection refused", "100% é")
		case 2:
			h.Check, h.Nanos, h.Code = 1e9+int64(core.Uniform(t, "at", 1e8)), genNanos(t, "nanos"), core.Pick(t, "code", 201, 404, 500)
		default:
			h.Check, h.Nanos, h.Code = 1e9+int64(core.Uniform(t, "at", 1e8)), genNanos(t, "nanos"), 200
		}
		hs = append(hs, h)
	}
	return hs
}

func genSession(t *rapid.T) Session {
	s := Session{View: core.Pick(t, "view", "jobs", "jobs", "hosts"), Rows: core.Pick(t, "rows", 10, 11, 12, 24, 25, 50)}
	if s.View == "jobs" {
		if core.Chance(t, "sorted", 2, 3) {
			v := core.Pick(t, "sort", "name", "count", "count_success", "avg", "max", "min", "stddev", "total_time", "count_validation_error", "")
			s.Sort = &v
		}
		if core.Chance(t, "named", 1, 3) {
			s.Name = core.Str(core.Pick(t, "name", "a", "web", "é", "/", "%", " ", "nothing has this", "1", "A"))
		}
	}
	for n := 1 + core.Uniform(t, "phases", 4); n > 0; n-- {
		p := Phase{Kind: core.Pick(t, "kind", "ok", "ok", "ok", "ok", "garbage", "cut", "reset", "refused", core.Pick(t, "hanging", "hang", "hangBody")), Hold: core.Chance(t, "hold", 1, 4)}
		if s.View == "jobs" {
			p.Jobs = genJobs(t, s.Rows)
		} else {
			p.Hosts = genHosts(t, s.Rows)
		}
		if p.Kind != "ok" && p.Kind != "cut" && p.Kind != "hangBody" {
			p.Jobs, p.Hosts = nil, nil
		}
		if core.Chance(t, "padded", 1, 6) {
			p.Pad = core.Pick(t, "pad", 5000, 70_000, 300_000, 1_100_000)
		}
		s.Phases = append(s.Phases, p)
	}
	return s
}

func TestC29_top(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Gen: func(t *rapid.T) (c Case) {
			for n := 1 + core.Uniform(t, "sessions", 20); n > 0; n-- {
				c.Sessions = append(c.Sessions, genSession(t))
			}
			return
		},
		Run: runCase,
		Classify: func(c Case) (bool, []string) {
			var l []string
			ok := false
			for _, s := range c.Sessions {
				l = append(l, s.View)
				for _, p := range s.Phases {
					l = append(l, p.Kind)
					ok = ok || p.Kind == "ok" && len(p.Jobs)+len(p.Hosts) > 0
				}
			}
			return ok, l
		},
	})
}
