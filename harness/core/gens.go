package core

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

// Chance is true with probability about n/d.
func Chance(t *rapid.T, label string, n, d int) bool {
	// rapid biases small integers; put the rare branch on the high side so that it shrinks away.
	return Uniform(t, label, d) >= d-n
}

// Uniform draws from [0,n) without rapid's small-value bias (it still shrinks towards 0).
func Uniform(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	vs := smallInts
	if n <= len(vs) {
		return rapid.SampledFrom(vs[:n]).Draw(t, label)
	}
	hi := (n + len(vs) - 1) / len(vs)
	for {
		v := rapid.SampledFrom(rangeInts(hi)).Draw(t, label)*len(vs) + rapid.SampledFrom(vs).Draw(t, label)
		if v < n {
			return v
		}
	}
}

var smallInts = rangeInts(1024)

func rangeInts(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i
	}
	return v
}

var wildPieces = []string{"%", "%s", "%d", "%!", "\"", "\\", "\n", "\r", "\t", " ", ".", "..", ":", "|", "/", "@", "#", "$", "-", "_", "é", "ü", "日本", "\u2028", "😀", "\x00", "\x7f", "<b>", "&", "'", "{", "}", "[", "]", "^", "~", "Z", "z", "0", "9", "A", "a", "`", "kvs:[", "err:"}
var badPieces = []string{"\xff", "\xc3", "\xe2\x82", "\x80"}

var poolNames = []string{"a", "b", "c", "foo", "bar", "general", "web.request", "api/users", "my-job", "my_job", "panic", "request", "count", "gauge", "timing", "error", "success", "A.b", "a.b"}

// NameOpts selects what names may look like.
type NameOpts struct {
	Empty   bool // the empty name
	BadUTF8 bool // invalid UTF-8
	MaxLen  int  // long names up to this many bytes (0: none longer than a few dozen)
}

// Name draws an event, job or key name: often from a small pool (so that names collide), sometimes wild.
func Name(t *rapid.T, label string, o NameOpts) string {
	switch k := Uniform(t, label+"Kind", 20); {
	case k < 6:
		return rapid.SampledFrom(poolNames[:4]).Draw(t, label)
	case k < 11:
		return rapid.SampledFrom(poolNames).Draw(t, label)
	case k < 13:
		return rapid.StringMatching(`[A-Za-z0-9_.:-]{1,12}`).Draw(t, label)
	case k < 17:
		n := rapid.IntRange(1, 5).Draw(t, label+"N")
		var b strings.Builder
		for i := 0; i < n; i++ {
			if o.BadUTF8 && Chance(t, label+"Bad", 1, 12) {
				b.WriteString(rapid.SampledFrom(badPieces).Draw(t, label))
			} else if Chance(t, label+"P", 1, 3) {
				b.WriteString(rapid.SampledFrom(poolNames).Draw(t, label))
			} else {
				b.WriteString(rapid.SampledFrom(wildPieces).Draw(t, label))
			}
		}
		return b.String()
	case k < 18:
		return string(rune(rapid.IntRange(1, 0x2ff).Draw(t, label)))
	case k < 19 && o.Empty:
		return ""
	default:
		if o.MaxLen > 0 {
			n := rapid.IntRange(1, o.MaxLen).Draw(t, label+"Len")
			return strings.Repeat(rapid.SampledFrom([]string{"x", "y", "-"}).Draw(t, label), n)
		}
		return rapid.SampledFrom(poolNames).Draw(t, label)
	}
}

// Text draws a value or message: anything goes.
func Text(t *rapid.T, label string, badUTF8 bool) string {
	switch k := Uniform(t, label+"Kind", 12); {
	case k < 3:
		return rapid.SampledFrom(poolNames).Draw(t, label)
	case k < 4:
		return ""
	case k < 8:
		return Name(t, label, NameOpts{BadUTF8: badUTF8})
	case k < 11:
		return rapid.StringN(0, 12, -1).Draw(t, label)
	default:
		max := 3000
		if Chance(t, label+"Huge", 1, 12) {
			max = 70000
		}
		return strings.Repeat(rapid.SampledFrom([]string{"w", "0", "%"}).Draw(t, label), rapid.IntRange(40, max).Draw(t, label+"Len"))
	}
}

// GenKvs draws key/values: nil, empty, or a few pairs whose keys collide across draws.
func GenKvs(t *rapid.T, label string, badUTF8 bool) Kvs {
	switch k := Uniform(t, label+"Kind", 10); {
	case k < 3:
		return nil
	case k < 4:
		return Kvs{}
	default:
		n := rapid.IntRange(1, 5).Draw(t, label+"N")
		kvs := make(Kvs, 0, n)
		for i := 0; i < n; i++ {
			kvs = append(kvs, KV{Str(Key(t, label+"K", badUTF8)), Str(Text(t, label+"V", badUTF8))})
		}
		if Chance(t, label+"Many", 1, 40) {
			many := 10 + Uniform(t, label+"ManyN", 90)
			for i := 0; i < many; i++ {
				kvs = append(kvs, KV{Str(fmt.Sprintf("k%d", i)), Str(fmt.Sprintf("%s%d", label, i))})
			}
		}
		return kvs
	}
}

// Key draws a key of a key/value pair.
func Key(t *rapid.T, label string, badUTF8 bool) string {
	if Chance(t, label+"Pool", 2, 3) {
		return rapid.SampledFrom([]string{"k", "a", "b", "c", "wat", "request", "formdata", "stack", "user_id"}).Draw(t, label)
	}
	return Name(t, label, NameOpts{BadUTF8: badUTF8, Empty: true})
}

var nanoEdges = []int64{0, 1, 2, 999, 1000, 1001, 1999, 2000, 2001, 9999, 10000, 999999, 1e6, 1e6 + 1, 1999999, 2000000, 2000001, 9999999, 10000000, 10000001, 9994999, 9995000, 999999999, 1e9, 1e9 + 1, 60e9, 3600e9, 86400e9, 86400e9 * 12, 3037000500, math.MaxInt32, math.MaxInt32 + 1}

// Nanos draws a duration in nanoseconds, never negative, at most about 12 days unless huge is set.
func Nanos(t *rapid.T, label string, huge bool) int64 {
	switch k := Uniform(t, label+"Kind", 12); {
	case k < 5:
		e := rapid.SampledFrom(nanoEdges).Draw(t, label)
		d := int64(rapid.IntRange(0, 2).Draw(t, label+"D"))
		return e + d
	case k < 7:
		return int64(rapid.IntRange(0, 5000).Draw(t, label))
	case k < 11:
		exp := Uniform(t, label+"Exp", 51)
		return int64(rapid.Int64Range(0, (int64(1)<<uint(exp))).Draw(t, label))
	default:
		if huge {
			return rapid.SampledFrom([]int64{math.MaxInt64, math.MaxInt64 / 2, 1 << 60, 1 << 53, 1<<53 + 1}).Draw(t, label)
		}
		return int64(rapid.IntRange(0, 100000000).Draw(t, label))
	}
}

var gaugeEdges = []float64{0, 1, -1, 0.1, -0.1, 0.09999999, -0.09999999, 0.1000001, 0.0999, 0.10499, 0.105, 0.5, 3.14, 0.005, 0.004, 0.015, 1e-9, 1e-300, 100, 1000.125, 99.995, 99.994999, 1e6, 123456789.987654321, 1e15, 1e17, 9007199254740993, 1e21, 5e-324, -42.25, -1e10, 1e160, -1.7e308, math.MaxFloat64}

// Gauge draws a finite gauge value of magnitude at most max.
func Gauge(t *rapid.T, label string, max float64) float64 {
	var v float64
	switch k := Uniform(t, label+"Kind", 10); {
	case k < 4:
		v = rapid.SampledFrom(gaugeEdges).Draw(t, label)
	case k < 6:
		v = float64(rapid.IntRange(-1000, 1000).Draw(t, label))
	case k < 8:
		v = float64(rapid.IntRange(-100000, 100000).Draw(t, label)) / 1000
	case k < 9:
		v = rapid.Float64Range(-1, 1).Draw(t, label)
	default:
		v = rapid.Float64().Draw(t, label)
	}
	if math.IsNaN(v) || math.Abs(v) > max {
		v = 7.5
	}
	if v == 0 {
		v = 0 // no negative zero
	}
	return v
}

// Len draws a sequence length in [min,max], usually moderate, sometimes near max.
func Len(t *rapid.T, label string, min, max int) int {
	switch k := Uniform(t, label+"Kind", 10); {
	case k < 5:
		hi := min + 12
		if hi > max {
			hi = max
		}
		return min + Uniform(t, label, hi-min+1)
	case k < 9:
		hi := min + 60
		if hi > max {
			hi = max
		}
		return min + Uniform(t, label, hi-min+1)
	default:
		return min + Uniform(t, label, max-min+1)
	}
}
