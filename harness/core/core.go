// Package core runs one sub-check of a property: a rapid generator of JSON-serialisable cases, a function that
// executes a case against gocraft/health and compares with an oracle, and a classifier. Cases are executed from their
// JSON form, so a failing case file is a complete replay that bypasses rapid.
package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Sub is one sub-check.
type Sub[C any] struct {
	Gen func(t *rapid.T) C
	// Run returns an error iff the property is violated by the case. It returns an Inconclusive error when the
	// environment (and not the code) kept it from deciding.
	Run func(c C) error
	// Classify tells whether the case is non-trivial by the sub-check's rule, and labels it.
	Classify func(c C) (nontrivial bool, labels []string)
	// Bubble runs each case in its own synctest bubble (virtual time, deadlock and leak detection).
	Bubble bool
	// Leaks, with Bubble: goroutines left behind blocked forever when the case has returned are a violation.
	Leaks bool
}

// The real outputs: Quiet redirects what the code under test prints.
var stdout, stderr = os.Stdout, os.Stderr

// Quiet silences os.Stdout and os.Stderr for the rest of the process (not the runtime's crash output).
func Quiet() {
	if os.Getenv("VP_LOUD") != "" {
		return
	}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = f, f
	}
}

type inconclusive struct{ msg string }

func (i inconclusive) Error() string { return i.msg }

// Inconclusive marks an outcome that neither shows nor refutes a violation.
func Inconclusive(format string, a ...interface{}) error {
	return inconclusive{fmt.Sprintf(format, a...)}
}

type result struct {
	Sub          string                     `json:"sub"`
	Evaluations  int                        `json:"evaluations"`
	Skipped      int                        `json:"skipped"`
	Inconclusive int                        `json:"inconclusive"`
	InconMsg     string                     `json:"inconclusive_msg,omitempty"`
	Hashes       []string                   `json:"hashes"`
	Labels       map[string]int             `json:"labels"`
	Samples      []json.RawMessage          `json:"samples"`
	Failed       bool                       `json:"failed"`
	Error        string                     `json:"error,omitempty"`
	Extra        map[string]json.RawMessage `json:"extra,omitempty"`
}

type failFile struct {
	Sub   string          `json:"sub"`
	Error string          `json:"error"`
	Case  json.RawMessage `json:"case,omitempty"`
	// Cases, instead of Case: the case fails only after these others in the same process.
	Cases []json.RawMessage `json:"cases,omitempty"`
	// Unshrunk: rapid could not shrink it.
	Unshrunk bool `json:"unshrunk,omitempty"`
}

func writeFail(out string, f failFile) {
	b, _ := json.MarshalIndent(f, "", " ")
	tmp := filepath.Join(out, f.Sub+".fail.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(out, f.Sub+".fail.json"))
}

func marshal(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: case not serialisable: " + err.Error())
	}
	return b
}

const maxHistory = 3000

// Check runs the sub-check named after the test. Environment:
//
//	VP_OUT      directory for result, fail and current-case files (search mode)
//	VP_CASE     a fail/case file to replay instead of searching
//	VP_DEADLINE seconds after which no more cases are executed
func Check[C any](t *testing.T, s Sub[C]) {
	name := t.Name()
	if f := os.Getenv("VP_CASE"); f != "" {
		replay(t, s, f)
		return
	}
	out := os.Getenv("VP_OUT")
	if out == "" {
		var err error
		out, err = os.MkdirTemp("", "vp")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(out)
	}
	res := &result{Sub: name, Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	var deadline time.Time
	if d, err := strconv.ParseFloat(os.Getenv("VP_DEADLINE"), 64); err == nil {
		deadline = time.Now().Add(time.Duration(d * float64(time.Second)))
	}
	cur := filepath.Join(out, name+".current.json")
	curF, err := os.Create(cur)
	if err != nil {
		t.Fatal(err)
	}
	defer curF.Close()
	failed := false
	sampleAt := 1
	var history []json.RawMessage // the latest cases in this process, in case a failure depends on them

	finish := func() {
		res.Hashes = make([]string, 0, len(hashes))
		for h := range hashes {
			res.Hashes = append(res.Hashes, strconv.FormatUint(h, 16))
		}
		sort.Strings(res.Hashes)
		b, _ := json.Marshal(res)
		os.WriteFile(filepath.Join(out, name+".result.json"), b, 0o644)
	}
	defer finish()

	rapid.Check(t, func(rt *rapid.T) {
		c := s.Gen(rt)
		raw := marshal(c)
		if !failed && !deadline.IsZero() && time.Now().After(deadline) {
			res.Skipped++
			return
		}
		var c2 C
		if err := json.Unmarshal(raw, &c2); err != nil {
			panic("harness: case does not round-trip: " + err.Error())
		}
		curF.Truncate(0)
		curF.WriteAt(marshal(failFile{Sub: name, Case: raw}), 0)
		err := execute(t, name, s, c2, func(err error) {
			// No shrinking: the process has to end.
			res.Failed, res.Error = true, err.Error()
			res.Evaluations++
			writeFail(out, failFile{Sub: name, Error: err.Error(), Case: raw, Unshrunk: true})
			finish()
		})
		if !failed {
			if history = append(history, raw); len(history) > 2*maxHistory {
				history = append(history[:0:0], history[maxHistory:]...)
			}
			res.Evaluations++
			nt, labels := s.Classify(c2)
			if nt {
				h := fnv.New64a()
				h.Write(raw)
				hashes[h.Sum64()] = true
				if len(hashes) >= sampleAt && len(res.Samples) < 3 && len(raw) < 3000 {
					res.Samples = append(res.Samples, raw)
					sampleAt = len(hashes)*8 + 5
				}
			}
			for _, l := range labels {
				res.Labels[l]++
			}
		}
		var inc inconclusive
		if errors.As(err, &inc) {
			res.Inconclusive++
			res.InconMsg = inc.msg
			return
		}
		if err != nil {
			if !failed {
				b, _ := json.Marshal(failFile{Sub: name, Error: err.Error(), Cases: history})
				os.WriteFile(filepath.Join(out, name+".first.json"), b, 0o644)
			}
			failed = true
			res.Failed = true
			res.Error = err.Error()
			writeFail(out, failFile{Sub: name, Error: err.Error(), Case: raw})
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func replay[C any](t *testing.T, s Sub[C], file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var ff failFile
	if err := json.Unmarshal(b, &ff); err != nil {
		t.Fatal(err)
	}
	if ff.Cases == nil {
		ff.Cases = []json.RawMessage{ff.Case}
	}
	cs := make([]C, len(ff.Cases))
	for i, raw := range ff.Cases {
		if err := json.Unmarshal(raw, &cs[i]); err != nil {
			t.Fatal(err)
		}
	}
	n, _ := strconv.Atoi(os.Getenv("VP_TIMES"))
	if n < 1 {
		n = 1
	}
	for i := 0; i < n*len(cs); i++ {
		err := execute(t, t.Name(), s, cs[i%len(cs)], func(err error) { fmt.Fprintln(stdout, "REPLAY-VIOLATION", err.Error()) })
		var inc inconclusive
		if errors.As(err, &inc) {
			fmt.Fprintln(stdout, "REPLAY-INCONCLUSIVE", inc.msg)
			continue
		}
		if err != nil {
			fmt.Fprintln(stdout, "REPLAY-VIOLATION", err.Error())
			t.Fail()
			return
		}
	}
	fmt.Fprintln(stdout, "REPLAY-OK")
}

// watchdog ends the process if a single case takes very long in real time (with a goroutine dump; the runner replays
// the case on its own before it believes in a hang), or if a case has returned but its goroutines run on forever.
var (
	wdOnce  sync.Once
	wdMu    sync.Mutex
	wdStart time.Time
	wdDone  bool  // the case in the bubble has returned
	wdErr   error // what it returned
	stuck   func(err error)
)

const stuckSeconds = 8

func watchdog() {
	limit := 40.0
	if v, err := strconv.ParseFloat(os.Getenv("VP_HANG"), 64); err == nil {
		limit = v
	}
	go func() {
		var doneAt, doneStart time.Time
		for {
			time.Sleep(250 * time.Millisecond)
			wdMu.Lock()
			st, done, err, f := wdStart, wdDone, wdErr, stuck
			wdMu.Unlock()
			if st.IsZero() || !done {
				doneAt = time.Time{}
			} else if doneAt.IsZero() || !doneStart.Equal(st) {
				doneAt, doneStart = time.Now(), st
			}
			hung := !st.IsZero() && time.Since(st).Seconds() > limit
			left := !doneAt.IsZero() && time.Since(doneAt).Seconds() > stuckSeconds
			if !hung && !left {
				continue
			}
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			if left {
				var inc inconclusive
				if err == nil || errors.As(err, &inc) {
					err = fmt.Errorf("goroutines of the code under test run on forever after the case has ended and everything was stopped")
				}
				fmt.Fprintf(stderr, "%s\n", buf[:n])
				f(err)
				os.Exit(1)
			}
			fmt.Fprintf(stderr, "VP-HANG: case still running after %.0f s\n%s\n", limit, buf[:n])
			os.Exit(77)
		}
	}()
}

func execute[C any](t *testing.T, name string, s Sub[C], c C, onStuck func(error)) (err error) {
	wdMu.Lock()
	wdStart, wdDone, wdErr, stuck = time.Now(), false, nil, onStuck
	wdMu.Unlock()
	wdOnce.Do(watchdog)
	defer func() {
		wdMu.Lock()
		wdStart, wdDone = time.Time{}, false
		wdMu.Unlock()
	}()
	if !s.Bubble {
		return guard(func() error { return s.Run(c) })
	}
	return Bubble(t, s.Leaks, func() error { return s.Run(c) })
}

func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}

// Bubble runs f in a synctest bubble and reports deadlocks (and, if leaks is set, goroutines that can never end).
func Bubble(t *testing.T, leaks bool, f func() error) (err error) {
	done := false
	defer func() {
		if p := recover(); p != nil {
			msg := fmt.Sprint(p)
			if strings.Contains(msg, "deadlock") || strings.Contains(msg, "blocked goroutines remain") {
				if done && err == nil {
					if leaks {
						err = fmt.Errorf("goroutines were left behind, blocked forever (%s)", msg)
					}
					return
				}
				if err == nil {
					err = fmt.Errorf("deadlock: the case never finished (%s)", msg)
				}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		e := guard(f)
		err = e
		done = true
		wdMu.Lock()
		wdDone, wdErr = true, e
		wdMu.Unlock()
	})
	return err
}

// Errs collects differences.
type Errs struct{ list []string }

func (e *Errs) Addf(format string, a ...interface{}) {
	if len(e.list) < 20 {
		e.list = append(e.list, fmt.Sprintf(format, a...))
	}
}
func (e *Errs) Err() error {
	if len(e.list) == 0 {
		return nil
	}
	return errors.New(strings.Join(e.list, "\n"))
}
