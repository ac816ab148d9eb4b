package statsd

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Opts are the sink's options.
type Opts struct {
	Nil      bool     `json:"nil,omitempty"` // no options at all
	Prefix   core.Str `json:"prefix,omitempty"`
	Sanitize string   `json:"sanitize,omitempty"` // "", dash, hex
	SkipNest bool     `json:"skip_nested,omitempty"`
	SkipTop  bool     `json:"skip_top,omitempty"`
}

func plain(b byte, dot bool) bool {
	return 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || '0' <= b && b <= '9' || b == '_' || dot && b == '.'
}

func sanitize(kind, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case plain(s[i], kind != "hex"):
			b.WriteByte(s[i])
		case kind == "dash":
			b.WriteByte('-')
		case kind == "hex":
			fmt.Fprintf(&b, "%%%02x", s[i])
		default:
			b.WriteByte('$')
		}
	}
	return b.String()
}

func (o Opts) real(gate func(string)) *health.StatsDSinkOptions {
	if o.Nil && gate == nil {
		return nil
	}
	r := &health.StatsDSinkOptions{Prefix: string(o.prefix()), SkipNestedEvents: o.SkipNest && !o.Nil, SkipTopLevelEvents: o.SkipTop && !o.Nil}
	if o.Sanitize != "" && !o.Nil || gate != nil {
		kind := o.kind()
		r.SanitizationFunc = func(b *bytes.Buffer, s string) {
			if gate != nil {
				gate(s)
			}
			b.WriteString(sanitize(kind, s))
		}
	}
	return r
}

func (o Opts) prefix() string {
	if o.Nil {
		return ""
	}
	return string(o.Prefix)
}

func (o Opts) kind() string {
	if o.Nil {
		return ""
	}
	return o.Sanitize
}

// Emit is an emission.
type Emit struct {
	Kind   string   `json:"k"`
	Job    core.Str `json:"j"`
	Event  core.Str `json:"e,omitempty"`
	Nanos  int64    `json:"ns,omitempty"`
	Value  core.F64 `json:"g,omitzero"`
	Status int      `json:"st,omitempty"`
	Rep    int      `json:"rep,omitempty"`
	Spread int      `json:"spread,omitempty"` // each time with another job (1), event (2), or both (3)
}

// at is what is emitted the i-th time.
func (e Emit) at(i int) Emit {
	if e.Spread&1 != 0 {
		e.Job += core.Str(fmt.Sprintf("-%d", i))
	}
	if e.Spread&2 != 0 && e.Kind != "complete" {
		e.Event += core.Str(fmt.Sprintf("-%d", i))
	}
	e.Rep, e.Spread = 0, 0
	return e
}

func (e Emit) to(s health.Sink) {
	kvs := map[string]string{"k": "v"}
	switch e.Kind {
	case "event":
		s.EmitEvent(string(e.Job), string(e.Event), kvs)
	case "eventErr":
		s.EmitEventErr(string(e.Job), string(e.Event), fmt.Errorf("x"), kvs)
	case "timing":
		s.EmitTiming(string(e.Job), string(e.Event), e.Nanos, kvs)
	case "gauge":
		s.EmitGauge(string(e.Job), string(e.Event), float64(e.Value), kvs)
	case "complete":
		s.EmitComplete(string(e.Job), health.CompletionStatus(e.Status), e.Nanos, kvs)
	}
}

func (e Emit) times() int {
	if e.Rep < 1 {
		return 1
	}
	return e.Rep
}

var statuses = []string{"success", "validation_error", "panic", "error", "junk"}

// Line is an expected metric line: what comes before the value, a test of the value, and what comes after it.
type Line struct {
	key   string
	value string // one correct rendering
	kind  string // c, ms, g
	e     Emit
}

func (l Line) bytes() int { return len(l.key) + 1 + len(l.value) + 1 + len(l.kind) + 1 }

func (l Line) String() string { return l.key + ":" + l.value + "|" + l.kind }

var twoDecimals = regexp.MustCompile(`^-?[0-9]+\.[0-9][0-9]$`)
var decimal = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

// near tells whether text has two decimals and is want rounded somehow to the nearest hundredth.
func near(text string, want *big.Rat) bool {
	if !twoDecimals.MatchString(text) {
		return false
	}
	got, ok := new(big.Rat).SetString(text)
	if !ok {
		return false
	}
	d := got.Sub(got, want)
	d.Abs(d)
	// the tiny slack allows dividing as floats first
	return d.Cmp(big.NewRat(5000001, 1000000000)) <= 0
}

func (l Line) valueOK(v string) bool {
	switch l.e.Kind {
	case "event", "eventErr":
		return v == "1"
	case "timing", "complete":
		if l.e.Nanos >= 10000000 {
			return v == strconv.FormatInt(l.e.Nanos/1000000, 10)
		}
		return near(v, big.NewRat(l.e.Nanos, 1000000))
	default:
		g := float64(l.e.Value)
		exact := func() bool {
			f, err := strconv.ParseFloat(v, 64)
			return err == nil && f == g && decimal.MatchString(v)
		}
		hundredths := func() bool { return near(v, new(big.Rat).SetFloat64(g)) }
		switch {
		case g < 0.1 && g > -0.1:
			return exact()
		case g == 0.1 || g == -0.1:
			return exact() || hundredths()
		default:
			return hundredths()
		}
	}
}

// matches compares with a received line (without its newline).
func (l Line) matches(got string) bool {
	pre, post := l.key+":", "|"+l.kind
	if len(got) < len(pre)+len(post) || !strings.HasPrefix(got, pre) || !strings.HasSuffix(got, post) {
		return false
	}
	return l.valueOK(got[len(pre) : len(got)-len(post)])
}

func join(kind string, parts ...string) string {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, sanitize(kind, p))
		}
	}
	return strings.Join(out, ".")
}

// lines are the expected lines of one emission, those longer than a datagram included.
func (o Opts) lines(e Emit) []Line {
	var l []Line
	add := func(job, event, suffix string) {
		x := Line{key: join(o.kind(), o.prefix(), job, event, suffix), e: e}
		switch e.Kind {
		case "event", "eventErr":
			x.value, x.kind = "1", "c"
		case "timing", "complete":
			x.kind = "ms"
			x.value = strconv.FormatFloat(float64(e.Nanos)/1e6, 'f', 2, 64)
			if e.Nanos >= 10000000 {
				x.value = strconv.FormatInt(e.Nanos/1000000, 10)
			}
		case "gauge":
			x.kind = "g"
			prec := 2
			if float64(e.Value) < 0.1 && float64(e.Value) > -0.1 {
				prec = -1
			}
			x.value = strconv.FormatFloat(float64(e.Value), 'f', prec, 64)
		}
		l = append(l, x)
	}
	if e.Kind == "complete" {
		add(string(e.Job), "", statuses[e.Status])
		return l
	}
	suffix := ""
	if e.Kind == "eventErr" {
		suffix = "error"
	}
	if o.Nil || !o.SkipTop {
		add("", string(e.Event), suffix)
	}
	if o.Nil || !o.SkipNest {
		add(string(e.Job), string(e.Event), suffix)
	}
	return l
}

const limit = 1440

// sent are the lines that must arrive.
func (o Opts) sent(e Emit) []Line {
	var out []Line
	for _, l := range o.lines(e) {
		if l.bytes() <= limit {
			out = append(out, l)
		}
	}
	return out
}

func genOpts(t *rapid.T) Opts {
	if core.Chance(t, "nilOpts", 1, 6) {
		return Opts{Nil: true}
	}
	o := Opts{Sanitize: core.Pick(t, "sanitize", "", "", "dash", "hex"), SkipNest: core.Chance(t, "skipNest", 1, 5), SkipTop: core.Chance(t, "skipTop", 1, 5)}
	if core.Chance(t, "prefixed", 1, 2) {
		o.Prefix = core.Str(core.Name(t, "prefix", core.NameOpts{BadUTF8: true}))
	}
	return o
}

func genEmit(t *rapid.T, maxName, maxRep int) Emit {
	no := core.NameOpts{Empty: true, BadUTF8: true, MaxLen: maxName}
	e := Emit{Kind: core.Pick(t, "kind", "event", "eventErr", "timing", "gauge", "complete"), Job: core.Str(core.Name(t, "job", no))}
	if e.Kind != "complete" {
		no.Empty = false
		e.Event = core.Str(core.Name(t, "event", no))
	}
	switch e.Kind {
	case "timing":
		e.Nanos = core.Nanos(t, "ns", true)
	case "complete":
		e.Nanos = core.Nanos(t, "ns", true)
		e.Status = core.Uniform(t, "status", 5)
	case "gauge":
		e.Value = core.F64(core.Gauge(t, "g", math.MaxFloat64))
	}
	if maxRep > 1 && core.Chance(t, "rep", 1, 8) {
		e.Rep = 2 + core.Uniform(t, "reps", 30)
		if core.Chance(t, "bulk", 1, 10) && len(e.Job)+len(e.Event) < 60 {
			e.Rep = 1 + core.Uniform(t, "bulkReps", maxRep)
		}
		if core.Chance(t, "spread", 1, 4) {
			e.Spread = 1 + core.Uniform(t, "spreadKind", 3)
			if e.Rep < 300 && core.Chance(t, "wide", 1, 3) {
				e.Rep = 300
			}
		}
	}
	return e
}

// split cuts datagrams into lines, or says what is wrong with one.
func split(grams [][]byte) ([]string, error) {
	var lines []string
	for i, g := range grams {
		if len(g) == 0 || len(g) > limit {
			return nil, fmt.Errorf("datagram %d has %d bytes", i, len(g))
		}
		if g[len(g)-1] != '\n' {
			return nil, fmt.Errorf("datagram %d does not end with a whole line: %s", i, tail(g))
		}
		lines = append(lines, strings.Split(string(g[:len(g)-1]), "\n")...)
	}
	return lines, nil
}

func tail(g []byte) string {
	if len(g) > 120 {
		return fmt.Sprintf("...%q", g[len(g)-120:])
	}
	return fmt.Sprintf("%q", g)
}

func clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// compare checks that got is a prefix of want.
func compare(want []Line, got []string) error {
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("received %d lines, expected %d; the first one too many is %s", len(got), len(want), clip(g))
		}
		if !want[i].matches(g) {
			return fmt.Errorf("line %d is %s, expected %s", i, clip(g), clip(want[i].String()))
		}
	}
	return nil
}
