package core

import (
	"encoding/hex"
	"encoding/json"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Str is a string that survives JSON whatever its bytes are.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "hex:") && !strings.HasPrefix(string(s), "rep:") && len(s) < 400 {
		return json.Marshal(string(s))
	}
	if len(s) >= 40 && strings.Count(string(s), string(s[0])) == len(s) && s[0] < utf8.RuneSelf {
		return json.Marshal("rep:" + strconv.Itoa(len(s)) + ":" + string(s[:1]))
	}
	return json.Marshal("hex:" + hex.EncodeToString([]byte(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "hex:") {
		raw, err := hex.DecodeString(v[4:])
		if err != nil {
			return err
		}
		*s = Str(raw)
		return nil
	}
	if strings.HasPrefix(v, "rep:") {
		p := strings.SplitN(v[4:], ":", 2)
		n, err := strconv.Atoi(p[0])
		if err != nil {
			return err
		}
		*s = Str(strings.Repeat(p[1], n))
		return nil
	}
	*s = Str(v)
	return nil
}

// F64 is a float64 that survives JSON whatever its value is.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return json.Marshal(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return json.Marshal(v)
}

// IsZero lets omitzero keep -0.
func (f F64) IsZero() bool { return math.Float64bits(float64(f)) == 0 }

func (f *F64) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
		v, err := strconv.ParseFloat(s, 64)
		*f = F64(v)
		return err
	}
	return json.Unmarshal(b, (*float64)(f))
}

// KV is one key/value pair; Kvs is a map in the order it is built (later pairs win). Nil and empty are different.
type KV struct {
	K Str `json:"k"`
	V Str `json:"v"`
}
type Kvs []KV

// Map builds a fresh map; nil for nil.
func (k Kvs) Map() map[string]string {
	if k == nil {
		return nil
	}
	m := make(map[string]string, len(k))
	for _, kv := range k {
		m[string(kv.K)] = string(kv.V)
	}
	return m
}
