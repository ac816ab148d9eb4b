package healthdp

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
)

func init() { core.Quiet() }

const sec = int64(1e9)

type gopts struct {
	ds      []int64
	maxHost int
	faults  int // out of 10
	bads    bool
	names   aggm.Opts
	ops     []string
	maxOps  int
	long    int64 // longest sleep
}

func genDelay(t *rapid.T) int64 {
	if core.Chance(t, "prompt", 1, 2) {
		return 0
	}
	return core.Pick[int64](t, "delay", 0, 1, 1e6, 299e6, 301e6, sec, 1900e6, 2100e6, 2600e6, 3*sec, 4*sec) + int64(core.Uniform(t, "odd", 50))*1037
}

// failing are answers without usable data, as seen by anybody.
func genFault(t *rapid.T) Behave {
	b := Behave{Kind: core.Pick(t, "fault", "status", "body", "refused", "reset", "hang", "hangBody", "cutBody", "hugeBody", "mangle")}
	switch b.Kind {
	case "status":
		b.Status = core.Pick(t, "status", 201, 204, 400, 401, 404, 418, 422, 429, 500, 502, 503)
	case "body":
		b.Status = core.Pick(t, "bodyStatus", 200, 200, 200, 404, 500)
		b.Body = core.Str(core.Pick(t, "body", "", "null", "{}", "[]", "\"\"", "0", "not json", "{", "<html></html>", "{\"aggregations\":null}", "{\"interval_duration\":0}",
			"{\"interval_duration\":-60000000000,\"aggregations\":[]}", "{\"interval_duration\":\"1m\"}", "{\"interval_duration\":1e30}", "{\"aggregations\":{}}", "{}{}",
			"{\"instance_id\":INSTANCE,\"interval_duration\":-5}", "{\"instance_id\":INSTANCE,\"interval_duration\":INTERVAL,\"aggregations\":[null]}", "{\"instance_id\":INSTANCE,\"interval_duration\":INTERVAL,\"aggregations\":7}",
			"{\"instance_id\":INSTANCE,\"interval_duration\":INTERVAL,\"aggregations\":[]", "{\"interval_duration\":INTERVAL,\"instance_id\":[]}", "\x00\xff", strings.Repeat("[", 20000)))
	case "hangBody", "cutBody":
		b.Status = core.Pick(t, "endStatus", 0, 0, 204, 404, 500, 503)
		if core.Chance(t, "some", 1, 2) {
			b.How, b.Pos = "data", core.Pick(t, "upTo", 1000, core.Uniform(t, "pos", 1001))
		}
	case "mangle":
		b.How, b.Pos = "cut", core.Uniform(t, "pos", 1001)
	}
	if b.Kind != "hang" {
		b.Delay = genDelay(t)
	}
	return b
}

func genBehave(t *rapid.T, o gopts) Behave {
	if core.Uniform(t, "works", 10) < 10-o.faults {
		b := Behave{Kind: "ok", Delay: genDelay(t)}
		if core.Chance(t, "split", 1, 8) {
			b.Delay, b.Gap = b.Delay/8, core.Pick[int64](t, "gap", 1e6, sec, 3*sec)
		}
		if len(o.ds) > 0 && core.Chance(t, "padded", 1, 60) {
			b.Pad = core.Pick(t, "pad", 5000, 70_000, 1_100_000, 4_200_000, 9_000_000, 17_000_000)
		}
		return b
	}
	return genFault(t)
}

func genBad(t *rapid.T, mismatch bool) Behave {
	if mismatch {
		return Behave{Kind: core.Pick(t, "mismKind", "mismatch", "mismatch", "refused"), Delay: genDelay(t)}
	}
	if core.Chance(t, "plain", 1, 3) {
		return genFault(t)
	}
	if core.Chance(t, "mism", 1, 8) {
		return Behave{Kind: "mismatch", Delay: genDelay(t)}
	}
	if core.Chance(t, "extreme", 1, 4) {
		return Behave{Kind: "mangle", Delay: genDelay(t), Pos: core.Uniform(t, "pos", 1001),
			How: core.Pick(t, "extremeHow", "1.7e308", "-1.7e308", "9223372036854775807", "-9223372036854775808", "4611686018427387904", "3037000500")}
	}
	return Behave{Kind: "mangle", Delay: genDelay(t), Pos: core.Uniform(t, "pos", 1001),
		How: core.Pick(t, "how", "cut", "null", "null", "null", "del", "\"x\"", "[]", "{}", "-1", "0", "true", "1.5", "1e99", "[null]", "{\"bad\":null}", "\"\"", "\"2020-13-45T00:00:00Z\"")}
}

func genName(t *rapid.T, i int) string {
	if core.Chance(t, "address", 1, 5) {
		return fmt.Sprintf(core.Pick(t, "addressForm", "10.0.0.%d:5020", "[2001:db8::%d]:5020", "plain%d", "[::%d]:80", "10.%d.0.1"), core.Pick(t, "hostNo", i, i, i+9, 100-i))
	}
	return fmt.Sprintf("%s%d:%d", core.Pick(t, "hostName", "h", "web", "H", "a-b", "z.example"), core.Pick(t, "hostNo", i, i, i+9, 100-i), core.Pick(t, "port", 5020, 80, 5021))
}

func gen(t *rapid.T, o gopts) Case {
	c := Case{D: core.Pick(t, "d", o.ds...), Offset: core.Pick[int64](t, "offset", 0, 1, sec/2, 7*sec+13) + int64(core.Uniform(t, "off", 60))*sec}
	if c.D >= 3600*sec && core.Chance(t, "nearEnd", 2, 3) {
		c.Offset = c.D*int64(1+core.Uniform(t, "nth", 3)) - int64(core.Uniform(t, "before", 100))*sec - core.Pick[int64](t, "beforeNs", 0, 1, sec/3)
	}
	c.Dup = core.Chance(t, "dup", 1, 10)
	c.Same = core.Chance(t, "same", 1, 5)
	n := 1 + core.Uniform(t, "hosts", o.maxHost)
	mismatch := o.bads && core.Chance(t, "mismatchOnly", 1, 6) // then what bad hosts report is never taken
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		h := Host{Name: genName(t, i), Retain: core.Pick(t, "retain", 5, 5, 5, 5, 3, 1, 6, 9, 30, 130)}
		for seen[h.Name] {
			h.Name = "x" + h.Name
		}
		seen[h.Name] = true
		if core.Chance(t, "zoned", 1, 3) {
			h.Zone = core.Pick(t, "zone", 60, -480, 330, 765, 840, -720, 1)
		}
		h.Bad = o.bads && i > 0 && core.Chance(t, "isBad", 2, 3)
		if h.Bad {
			if h.Retain > 5 {
				h.Retain = 5 // (it may report an old interval for the first time in a while)
			}
			h.B = genBad(t, mismatch)
		} else {
			h.B = genBehave(t, o)
		}
		c.Hosts = append(c.Hosts, h)
	}
	for k := core.Len(t, "ops", 3, o.maxOps); k > 0; k-- {
		op := Op{Op: core.Pick(t, "op", o.ops...)}
		switch op.Op {
		case "emit":
			op.Host = core.Uniform(t, "host", n)
			op.E = aggm.Gen(t, o.names)
		case "soak":
			op.Host = core.Uniform(t, "host", n)
			op.E = aggm.Gen(t, o.names)
			most := 3 * 3600 * sec / c.D
			if most > 150 {
				most = 150
			}
			op.N = 1 + core.Uniform(t, "times", int(most))
			if !c.Hosts[op.Host].Bad && core.Chance(t, "outage", 1, 5) { // a network that fails, so that much data comes at once
				c.Ops = append(c.Ops, Op{Op: "set", Host: op.Host, B: &Behave{Kind: core.Pick(t, "outageKind", "refused", "hang", "status"), Status: 503}}, op)
				op = Op{Op: "set", Host: op.Host, B: &Behave{Kind: "ok"}}
			}
		case "sleep":
			switch core.Uniform(t, "sleepKind", 6) {
			case 0:
				op.Ns = core.Pick[int64](t, "short", 1, 1e6, 300e6, sec, 2*sec, 2900e6, 3*sec)
			case 1, 2:
				op.Ns = core.Pick[int64](t, "poll", 5*sec, 9999e6, 10*sec, 10*sec+1, 12*sec, 23*sec)
			default:
				op.Ns = c.D * int64(1+core.Uniform(t, "ivs", 8)) / core.Pick[int64](t, "div", 1, 1, 2, 3)
			}
			if core.Chance(t, "long", 1, 12) {
				op.Ns = c.D * int64(core.Uniform(t, "many", 40))
			}
			if c.D >= 3600*sec && o.ds[0] == allDs[0] && core.Chance(t, "brief", 3, 4) {
				op.Ns %= 60 * sec
			}
			if op.Ns > o.long {
				op.Ns = o.long
			}
			op.Ns += int64(core.Uniform(t, "ns", 1000))
		case "set":
			op.Host = core.Uniform(t, "host", n)
			var b Behave
			if c.Hosts[op.Host].Bad {
				b = genBad(t, mismatch)
			} else {
				b = genBehave(t, o)
			}
			op.B = &b
		case "restart":
			op.Host = core.Uniform(t, "host", n)
		case "query":
			op.Sort = core.Pick(t, "sort", "", "name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "min", "max", "stddev", "other", "Name")
			op.Lim = core.Pick(t, "limit", "", "", "1", "2", "3", "5", "10", "1000", "0", "-1", "abc", "99999999999999999999", "010", "0x2", "+2", "1_0", "2.0", " 2", "3000000000", "1e1")
			if core.Chance(t, "404", 1, 4) {
				op.Path = core.Pick(t, "path", "/", "/health", "/healthd", "/healthd/", "/healthd/nope", "/healthd/aggregations/x", "/healthd/jobs/1", "/aggregations", "/healthd/host", "/healthd/%22")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func has(c Case, ops ...string) (n int) {
	for _, op := range c.Ops {
		for _, o := range ops {
			if op.Op == o {
				n++
			}
		}
	}
	return
}

func label(c Case) []string {
	l := []string{fmt.Sprintf("hosts:%d", len(c.Hosts))}
	if has(c, "restart") > 0 {
		l = append(l, "restart")
	}
	f := false
	for _, h := range c.Hosts {
		f = f || h.B.Kind != "ok"
	}
	for _, op := range c.Ops {
		f = f || op.B != nil && op.B.Kind != "ok"
	}
	if f {
		l = append(l, "faults")
	}
	return l
}

var names = aggm.Opts{MaxRep: 20}
var plain = aggm.Opts{MaxRep: 20, Plain: true}

var allDs = []int64{3600 * sec, 7200 * sec, 3 * 3600 * sec, sec, 2 * sec, 5 * sec, 7 * sec, 10 * sec, 15 * sec, 60 * sec, 60 * sec, 300 * sec}

func TestC24_merge(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return gen(t, gopts{ds: allDs, maxHost: 5, faults: 2, names: plain, maxOps: 60, long: 3600 * sec,
				ops: []string{"emit", "emit", "emit", "emit", "emit", "sleep", "sleep", "sleep", "set", "restart", "query", "query"}})
		},
		Run: func(c Case) error { return run(c, opts{data: true}) },
		Classify: func(c Case) (bool, []string) {
			return has(c, "emit") >= 2 && len(c.Hosts) >= 2, label(c)
		},
	})
}

func TestC24_sinks(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := gen(t, gopts{ds: allDs, maxHost: 4, faults: 2, names: plain, maxOps: 50, long: 1800 * sec,
				ops: []string{"emit", "emit", "emit", "emit", "emit", "sleep", "sleep", "sleep", "set", "restart", "query", "query"}})
			c.Real = true
			return c
		},
		Run: func(c Case) error { return run(c, opts{data: true}) },
		Classify: func(c Case) (bool, []string) {
			return has(c, "emit") >= 2, label(c)
		},
	})
}

func TestC25_views(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := gen(t, gopts{ds: allDs, maxHost: 3, faults: 0, names: names, maxOps: 60, long: 600 * sec,
				ops: []string{"emit", "emit", "emit", "emit", "emit", "emit", "sleep", "sleep", "query", "query"}})
			if core.Chance(t, "close", 1, 3) {
				// Many jobs that differ little, so that it matters how exactly they are compared.
				base := core.Pick[int64](t, "base", 0, 0, 1e3, 1e9, 1<<40)
				for i := range c.Ops {
					switch c.Ops[i].Op {
					case "emit":
						c.Ops[i].E = aggm.Emit{Kind: "complete", Job: core.Str(fmt.Sprintf("j%d", core.Uniform(t, "of", 16))), Status: core.Uniform(t, "closeStatus", 5),
							Nanos: base + int64(core.Uniform(t, "closeNanos", 4)), Rep: 1 + core.Uniform(t, "closeRep", 3)}
					case "query":
						c.Ops[i].Sort = core.Pick(t, "closeSort", "name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "avg", "min", "max", "stddev", "stddev")
						c.Ops[i].Lim = core.Pick(t, "closeLimit", "", "", "1", "2", "3", "5", "10", "11", "12", "15")
					}
				}
			}
			return c
		},
		Run: func(c Case) error { return run(c, opts{views: true}) },
		Classify: func(c Case) (bool, []string) {
			return has(c, "emit") >= 3 && has(c, "query") >= 1, label(c)
		},
	})
}

func TestC26_hosts(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return gen(t, gopts{ds: []int64{10 * sec, 60 * sec}, maxHost: 5, faults: 6, names: plain, maxOps: 60, long: 60 * sec,
				ops: []string{"sleep", "sleep", "sleep", "set", "set", "set", "restart", "query", "query", "query"}})
		},
		Run: func(c Case) error { return run(c, opts{hosts: true, badHosts: true, polls: true}) },
		Classify: func(c Case) (bool, []string) {
			return has(c, "set") >= 1 && has(c, "query") >= 1, label(c)
		},
	})
}

func TestC32_self(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return gen(t, gopts{ds: []int64{10 * sec, 60 * sec}, maxHost: 6, faults: 6, bads: core.Chance(t, "damaged", 1, 2), names: plain, maxOps: 40, long: 60 * sec,
				ops: []string{"emit", "sleep", "sleep", "sleep", "set", "set", "set", "restart", "query", "query"}})
		},
		Run: func(c Case) error { return run(c, opts{self: true}) },
		Classify: func(c Case) (bool, []string) {
			return has(c, "sleep") >= 1 && has(c, "query") >= 1, label(c)
		},
	})
}

func TestC27_bad(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			return gen(t, gopts{ds: allDs, maxHost: 6, faults: 1, bads: true, names: names, maxOps: 50, long: 600 * sec,
				ops: []string{"emit", "emit", "emit", "emit", "sleep", "sleep", "sleep", "set", "set", "query"}})
		},
		Run: func(c Case) error { return run(c, opts{data: true, hosts: true, views: true, polls: true}) },
		Classify: func(c Case) (bool, []string) {
			n := 0
			for _, h := range c.Hosts {
				if h.Bad {
					n++
				}
			}
			return n > 0 && has(c, "emit") > 0, label(c)
		},
	})
}

// many hosts that respond at the same time, or nearly so.
func TestC27_many(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := Case{D: core.Pick(t, "d", 10*sec, 60*sec), Offset: int64(core.Uniform(t, "off", 60)) * sec}
			n := core.Pick(t, "size", 20, 60, 64, 65, 66, 70, 100, 128, 130, 200, 300) + core.Uniform(t, "more", 5)
			b := genBehave(t, gopts{faults: 2})
			mixed := core.Chance(t, "mixed", 1, 2)
			for i := 0; i < n; i++ {
				h := Host{Name: fmt.Sprintf("h%d:80", i), Retain: 2, B: b}
				if mixed && core.Chance(t, "other", 1, 3) {
					h.B = genBehave(t, gopts{faults: 2})
				}
				c.Hosts = append(c.Hosts, h)
			}
			for k := 1 + core.Uniform(t, "ops", 12); k > 0; k-- {
				switch core.Uniform(t, "op", 4) {
				case 0:
					c.Ops = append(c.Ops, Op{Op: "query"})
				case 1:
					c.Ops = append(c.Ops, Op{Op: "sleep", Ns: core.Pick[int64](t, "ns", 1e6, 500e6, 2*sec, 5*sec, 10*sec)})
				default:
					c.Ops = append(c.Ops, Op{Op: "emit", Host: core.Uniform(t, "host", n), E: aggm.Gen(t, plain)})
				}
			}
			return c
		},
		Run:      func(c Case) error { return run(c, opts{data: true, hosts: true, badHosts: true, polls: true}) },
		Classify: func(c Case) (bool, []string) { return len(c.Hosts) > 64, nil },
	})
}

func TestC28_window(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := gen(t, gopts{ds: []int64{15 * sec, 60 * sec, 60 * sec, 300 * sec, 600 * sec, 1500 * sec, 1800 * sec, 2400 * sec, 3600 * sec, 7200 * sec, 3 * 3600 * sec}, maxHost: 2, faults: 2, names: plain, maxOps: 14, long: 3 * 3600 * sec,
				ops: []string{"emit", "emit", "soak", "soak", "sleep", "sleep", "set", "restart", "query", "query"}})
			if core.Chance(t, "flood", 1, 8) { // a host that retains much comes back after a long time
				c.D = core.Pick(t, "floodD", 15*sec, 60*sec)
				i := core.Uniform(t, "floodHost", len(c.Hosts))
				c.Hosts[i].Retain = 130
				c.Hosts[i].B = Behave{Kind: "refused"}
				c.Ops = append([]Op{{Op: "soak", Host: i, E: aggm.Gen(t, plain), N: 60 + core.Uniform(t, "floodN", 90)}, {Op: "set", Host: i, B: &Behave{Kind: "ok"}}, {Op: "query"}}, c.Ops...)
			}
			for _, h := range c.Hosts {
				for i := range c.Ops {
					if h.Retain > 30 && c.Ops[i].E.Spread > 0 && c.Ops[i].E.Rep > 5 { // (too much data)
						c.Ops[i].E.Rep = 5
					}
				}
			}
			return c
		},
		Run: func(c Case) error { return run(c, opts{data: true}) },
		Classify: func(c Case) (bool, []string) {
			var total int64
			for _, op := range c.Ops {
				switch op.Op {
				case "sleep":
					total += op.Ns
				case "soak":
					total += int64(op.N) * c.D
				}
			}
			l := label(c)
			if total > 2*3600*sec {
				l = append(l, "beyond-retention")
			}
			return total > 2*c.D && has(c, "emit", "soak") > 0, l
		},
	})
}

// a few hosts whose numbers are extreme.
func TestC27_extreme(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen: func(t *rapid.T) Case {
			c := Case{D: core.Pick(t, "d", 10*sec, 60*sec), Offset: int64(core.Uniform(t, "off", 60)) * sec}
			c.Hosts = []Host{{Name: "good:80", Retain: 3, B: Behave{Kind: "ok"}}}
			b := func() *Behave {
				return &Behave{Kind: "mangle", Pos: 250 + core.Uniform(t, "pos", 751),
					How: core.Pick(t, "how", "1.7e308", "1.7e308", "-1.7e308", "9e307", "9223372036854775807", "-9223372036854775808", "4611686018427387904", "3037000500", "-1", "0")}
			}
			n := 1 + core.Uniform(t, "bads", 3)
			for i := 0; i < n; i++ {
				c.Hosts = append(c.Hosts, Host{Name: fmt.Sprintf("bad%d:80", i), Retain: 1, Bad: true, B: *b()})
			}
			for k := 2 + core.Uniform(t, "ops", 15); k > 0; k-- {
				h := 1 + core.Uniform(t, "host", n)
				switch core.Uniform(t, "op", 5) {
				case 0, 1:
					e := aggm.Emit{Kind: core.Pick(t, "kind", "complete", "complete", "timing"), Job: "j", Event: "e", Nanos: core.Pick[int64](t, "nanos", 1, 1000, 1e9), Rep: 1 + core.Uniform(t, "rep", 3)}
					c.Ops = append(c.Ops, Op{Op: "emit", Host: h * core.Uniform(t, "which", 2), E: e}, Op{Op: "emit", Host: h, E: e})
				case 2:
					c.Ops = append(c.Ops, Op{Op: "set", Host: h, B: b()})
				case 3:
					c.Ops = append(c.Ops, Op{Op: "sleep", Ns: core.Pick[int64](t, "ns", 1*sec, 10*sec, 10*sec, 60*sec)})
				case 4:
					c.Ops = append(c.Ops, Op{Op: "query", Sort: core.Pick(t, "sort", "", "stddev", "avg")})
				}
			}
			return c
		},
		Run:      func(c Case) error { return run(c, opts{data: true, hosts: true, views: true, polls: true}) },
		Classify: func(c Case) (bool, []string) { return has(c, "emit") > 0, nil },
	})
}
