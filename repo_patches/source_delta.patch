From e0b43d975720628c14677ea1d3f2d2343968e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 01/37] fix: serve /health JSON verbatim instead of using it as
 a format string

A job, event or gauge name containing '%' was interpreted as a printf verb
and corrupted the JSON that /health returns.
---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From dcc96398f27b34c2c821f03dbe3b0ba28a132d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 02/37] fix: serve healthd API JSON verbatim instead of using
 it as a format string

Same defect as in the polling sink: any name containing '%' corrupted the
JSON of every healthd endpoint that mentions it.
---
 healthd/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
-- 
2.43.0


From faf006f652eebdbae6e47d5812360baddaf874d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 03/37] fix: ignore sides without timings when merging min and
 max

A job that only recorded events in an interval has Count 0 and a zero-value
NanosMin; merging it with a job that did complete reported a minimum of 0ns
that was never observed.
---
 interval_aggregation_merge.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..0454d96 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,15 +27,19 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
-	intoTa.Count += fromTa.Count
-	intoTa.NanosSum += fromTa.NanosSum
-	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-	if fromTa.NanosMin < intoTa.NanosMin {
+	// A side without any timings (eg, a job that only had events) has no min or max to contribute.
+	if fromTa.Count == 0 {
+		return
+	}
+	if intoTa.Count == 0 || fromTa.NanosMin < intoTa.NanosMin {
 		intoTa.NanosMin = fromTa.NanosMin
 	}
-	if fromTa.NanosMax > intoTa.NanosMax {
+	if intoTa.Count == 0 || fromTa.NanosMax > intoTa.NanosMax {
 		intoTa.NanosMax = fromTa.NanosMax
 	}
+	intoTa.Count += fromTa.Count
+	intoTa.NanosSum += fromTa.NanosSum
+	intoTa.NanosSumSquares += fromTa.NanosSumSquares
 }
 
 func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
-- 
2.43.0


From 8e01da9271f12d0209abb69c0572d116fcc99ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 04/37] fix: keep at least the current interval when retain <
 interval

With retain shorter than the interval, the window had room for 0 intervals and
the first emission panicked with an index out of range in the aggregator
goroutine, taking the whole process down.
---
 aggregator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..ce8ccbe 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,9 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		maxIntervals = 1 // we always keep the current interval
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From a8e2150d3a30f0a83cc1ecabdd2fb1938ec1f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 05/37] fix: don't let a NaN or infinite gauge take down
 /health

encoding/json refuses such values, so one bad gauge made the whole endpoint
answer 500 until the interval it was recorded in fell out of the window.
---
 aggregator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index ce8ccbe..b0d28a5 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -1,6 +1,7 @@
 package health
 
 import (
+	"math"
 	"time"
 )
 
@@ -110,6 +111,10 @@ func (a *aggregator) EmitTiming(job string, event string, nanos int64) {
 }
 
 func (a *aggregator) EmitGauge(job string, event string, value float64) {
+	// JSON can't represent these: a single one would make all of /health fail until its interval expires.
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return
+	}
 	intAgg := a.getIntervalAggregation()
 	intAgg.Gauges[event] = value
 	jobAgg := intAgg.getJobAggregation(job)
-- 
2.43.0


From d2dbd21c697f7e290d02cbe09feead303a79a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 06/37] fix: snapshot the key/values of an error queued for
 bugsnag

The map handed to a sink can be the job's or stream's own map. The sink keeps
it past the call and serializes it in another goroutine, so a KeyValue call
after the error changed the report or crashed the process with a concurrent map
iteration and map write.
---
 sinks/bugsnag/sink.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..2fffedd 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,7 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}
 		}
 	case *health.MutedError:
 	// Do nothing!
@@ -55,6 +55,18 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	}
 }
 
+// copyKvs copies kvs, because it can be the live map of the job or stream, which may change before we've reported the error.
+func copyKvs(kvs map[string]string) map[string]string {
+	if kvs == nil {
+		return nil
+	}
+	dup := make(map[string]string, len(kvs))
+	for k, v := range kvs {
+		dup[k] = v
+	}
+	return dup
+}
+
 func (s *Sink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
 	// no-op
 }
-- 
2.43.0


From 00b41ac79abffeef7ad1672c4e9899a98f105782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 07/37] fix: apply the documented ReleaseStage and Hostname
 defaults

Config documents that they default to "production" and os.Hostname(), but
only Endpoint had its default applied.
---
 sinks/bugsnag/sink.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 2fffedd..3db5e3e 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -26,6 +26,12 @@ func NewSink(config *Config) *Sink {
 	if config.Endpoint == "" {
 		config.Endpoint = "https://notify.bugsnag.com/"
 	}
+	if config.ReleaseStage == "" {
+		config.ReleaseStage = "production"
+	}
+	if config.Hostname == "" {
+		config.Hostname, _ = os.Hostname()
+	}
 
 	s := &Sink{
 		Config:   config,
-- 
2.43.0


From e24c6da0c04c7a662ea368cf1e43b1643599e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 08/37] fix: send Config.AppVersion to bugsnag

It is documented as used to filter errors and re-open resolved ones, but never
left the process.
---
 sinks/bugsnag/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..e26e5a5 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -58,7 +58,7 @@ type payloadEvent struct {
 	// user
 
 	App struct {
-		// version
+		Version      string `json:"version,omitempty"`
 		ReleaseStage string `json:"releaseStage"`
 	} `json:"app"`
 
@@ -143,6 +143,7 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		Exceptions:     []payloadException{except},
 		Context:        jobName,
 	}
+	evt.App.Version = config.AppVersion
 	evt.App.ReleaseStage = config.ReleaseStage
 	evt.Device.Hostname = config.Hostname
 	evt.Metadata.Kvs = kvs
-- 
2.43.0


From ca5d09c9a224e8d7f346104e3dff55b95d328120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 09/37] fix: bound how long a stalled bugsnag or librato
 endpoint can block

Neither client had a timeout. An endpoint that accepts a request and never
answers blocked the sink's goroutine for good; once the sink's queue was full,
every emission of the instrumented app blocked too. Also close bugsnag's
response body, which leaked the connection when reading it failed.
---
 sinks/bugsnag/api.go  | 4 +++-
 sinks/librato/sink.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index e26e5a5..209fa0c 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -7,6 +7,7 @@ import (
 	"github.com/gocraft/health/stack"
 	"io/ioutil"
 	"net/http"
+	"time"
 )
 
 type Config struct {
@@ -107,11 +108,12 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	}
 
 	// Post it to the server:
-	client := http.Client{}
+	client := http.Client{Timeout: 30 * time.Second}
 	resp, err := client.Post(config.Endpoint, "application/json", bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..336aeaf 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -95,7 +95,7 @@ func New(user, apiKey, prefix string) *Sink {
 		cmdChan:          make(chan *emitCmd, buffSize),
 		doneChan:         make(chan int),
 		doneDoneChan:     make(chan int),
-		httpClient:       &http.Client{},
+		httpClient:       &http.Client{Timeout: 30 * time.Second},
 		libratoUser:      user,
 		libratoApiKey:    apiKey,
 		prefix:           prefix,
-- 
2.43.0


From a4802f54704a1f89028fd4a7b0b2a89ab70b0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 10/37] fix: close librato's response bodies

Every flush leaked the response's connection and its goroutines.
---
 sinks/librato/sink.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 336aeaf..8ab8c59 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,14 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if err != nil {
+		return err
+	}
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return resp.Body.Close()
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From 4f18a51299ad0177e7cacc2fd424356aea5d5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:07 +0000
Subject: [PATCH 11/37] fix: don't let a NaN or infinite gauge drop a whole
 librato flush

---
 sinks/librato/sink.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 8ab8c59..60c2901 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"net/http"
 	"os"
 	"time"
@@ -184,6 +185,11 @@ func (s *Sink) processTiming(job string, event string, nanos int64) {
 }
 
 func (s *Sink) processGauge(job string, event string, value float64) {
+	// JSON can't represent these: a single one would make us lose everything else in this flush.
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return
+	}
+
 	key1, key2 := s.eventKeys(job, event, "gauge")
 	s.measure(key1, value)
 	s.measure(key2, value)
-- 
2.43.0


From 52a595bfe74c5e4ad777164b2a80870fd4863e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 12/37] fix: don't swallow Drain and Stop requests while
 draining

The drain loop consumed every queued command but only acted on metrics, so a
Drain or Stop requested by another goroutine meanwhile never returned.
---
 statsd_sink.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..e7853ec 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -166,14 +166,29 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			drains := 1
+			stop := false
 		DRAIN_LOOP:
 			for {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						drains++
+					case statsdCmdKindStop:
+						stop = true
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
 					s.flush()
-					s.drainDoneChan <- struct{}{}
+					for ; drains > 0; drains-- {
+						s.drainDoneChan <- struct{}{}
+					}
+					if stop {
+						s.stopDoneChan <- struct{}{}
+						break LOOP
+					}
 					break DRAIN_LOOP
 				}
 			}
-- 
2.43.0


From 83c62994bbb30881a42cefd3db52cade9b9e5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 13/37] fix: end the StatsD flush goroutine when the sink stops

Stopping a ticker doesn't close its channel, so each Stop leaked the goroutine
ranging over it.
---
 statsd_sink.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index e7853ec..6f7ece1 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -156,9 +156,19 @@ func (s *StatsDSink) loop() {
 	cmdChan := s.cmdChan
 
 	ticker := time.NewTicker(s.flushPeriod)
+	done := make(chan struct{})
 	go func() {
-		for _ = range ticker.C {
-			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
+		for {
+			select {
+			case <-ticker.C:
+			case <-done:
+				return
+			}
+			select {
+			case cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}:
+			case <-done:
+				return
+			}
 		}
 	}()
 
@@ -203,6 +213,7 @@ LOOP:
 	}
 
 	ticker.Stop()
+	close(done)
 }
 
 func (s *StatsDSink) processCmd(cmd *statsdEmitCmd) {
-- 
2.43.0


From c552f8b3183863b4fd228775ed9836d57180a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:32 +0000
Subject: [PATCH 14/37] fix: report the same job duration to every sink

The duration was measured again for each sink, so time spent in a blocking sink
was added to the job's time as seen by the sinks after it.
---
 health.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/health.go b/health.go
index 22ee16f..81d5600 100644
--- a/health.go
+++ b/health.go
@@ -167,16 +167,18 @@ func (j *Job) GaugeKv(eventName string, value float64, kvs map[string]string) {
 }
 
 func (j *Job) Complete(status CompletionStatus) {
+	nanos := time.Since(j.Start).Nanoseconds()
 	allKvs := j.mergedKeyValues(nil)
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
 func (j *Job) CompleteKv(status CompletionStatus, kvs map[string]string) {
+	nanos := time.Since(j.Start).Nanoseconds()
 	allKvs := j.mergedKeyValues(kvs)
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
-- 
2.43.0


From e15e3f4c8a906c89f4b46e99f070f741645eac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 15/37] fix: resolve inlined calls in stack traces

Mapping each program counter to a function with FuncForPC attributes an inlined
call to the function it was inlined into: with inlining on (the default) traces
repeated the outer function and lost the inner ones, including the function that
raised the error.
---
 stack/frame.go | 15 ++++++++++++---
 stack/stack.go | 14 ++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..3402b46 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -24,7 +24,7 @@ func NewFrame(pc uintptr) Frame {
 	if frame.Func() == nil {
 		return frame
 	}
-	frame.Package, frame.Name = packageAndName(frame.Func())
+	frame.Package, frame.Name = packageAndName(frame.Func().Name())
 
 	// pc -1 because the program counters we use are usually return addresses,
 	// and we want to show the line that corresponds to the function call
@@ -34,6 +34,16 @@ func NewFrame(pc uintptr) Frame {
 	return frame
 }
 
+// newFrame populates a stack frame object from the program counter and what the runtime knows about it.
+func newFrame(pc uintptr, caller runtime.Frame) Frame {
+	frame := Frame{ProgramCounter: pc}
+	frame.Package, frame.Name = packageAndName(caller.Function)
+	frame.File, frame.LineNumber = caller.File, caller.Line
+	frame.IsSystemPackage = isSystemPackage(frame.File, frame.Package)
+
+	return frame
+}
+
 // Func returns the function that this stackframe corresponds to
 func (frame *Frame) Func() *runtime.Func {
 	if frame.ProgramCounter == 0 {
@@ -46,8 +56,7 @@ func (frame *Frame) String() string {
 	return fmt.Sprintf("%s:%d %s", frame.File, frame.LineNumber, frame.Name)
 }
 
-func packageAndName(fn *runtime.Func) (string, string) {
-	name := fn.Name()
+func packageAndName(name string) (string, string) {
 	pkg := ""
 
 	// we first remove the path prefix if there is one.
diff --git a/stack/stack.go b/stack/stack.go
index 5c7dc61..1805a90 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -24,10 +24,16 @@ func NewTrace(skip int) *Trace {
 // StackFrames returns an array of frames containing information about the stack.
 func (t *Trace) Frames() []Frame {
 	if t.frames == nil {
-		t.frames = make([]Frame, len(t.stack))
-
-		for i, pc := range t.stack {
-			t.frames[i] = NewFrame(pc)
+		t.frames = make([]Frame, 0, len(t.stack))
+
+		// CallersFrames, unlike FuncForPC, knows about inlined calls.
+		callers := runtime.CallersFrames(t.stack)
+		for i := range t.stack {
+			caller, more := callers.Next()
+			t.frames = append(t.frames, newFrame(t.stack[i], caller))
+			if !more {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 3d0365568f37fc9bef9d7a0817c352fe66241b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 16/37] fix: don't take files next to GOROOT for system
 packages

With GOROOT=/usr/local/go, a project in /usr/local/go-projects was classified as
part of the standard library, so Bugsnag saw none of its frames as in-project.
---
 stack/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index 3402b46..142dd07 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -76,5 +76,5 @@ var goroot = runtime.GOROOT()
 
 // isSystemPackage returns true iff the package is a system package like 'runtime' or 'net/http'
 func isSystemPackage(file, pkg string) bool {
-	return strings.HasPrefix(file, goroot)
+	return strings.HasPrefix(file, goroot+"/")
 }
-- 
2.43.0


From d5f6d4389fb010b0c352d8b9bf7df223e264f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 17/37] fix: don't deadlock healthd when many hosts respond at
 once

With more than 64 responses arriving while the debouncer sleeps, the aggregator
blocked on the full request channel; if the debouncer then woke up with its
threshold exceeded, it blocked on the aggregator, and healthd hung for good.
---
 healthd/healthd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..615b7a5 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -140,7 +140,11 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+					// Enough requests are pending already. Don't block: the debouncer might be waiting for us.
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From 33afacedb6acd303b643caf2def7dda5a9e7f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 18/37] fix: treat equal interval times from different time
 zones as equal

A time decoded from JSON with an offset other than the local one carries its own
*time.Location, so the same interval of the same host was a new key on each poll:
with hosts and healthd in different time zones every poll was counted again and
listed as a new interval.
---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 615b7a5..76d8907 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -249,6 +249,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts report times in their own time zone. Use one zone so that equal times are equal keys.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 45dbdc861b462f599adb14f35a2b8ed17de18a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 19/37] fix: don't fail /healthd/jobs when timings barely vary

For (nearly) equal timings, rounding can make the variance's numerator negative.
Its square root is NaN, which can't be encoded as JSON, so the whole endpoint
answered 500.
---
 healthd/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..f392e8f 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -323,7 +323,9 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
 				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				if num > 0 { // rounding can make this negative if all timings are (nearly) the same
+					stddev = math.Sqrt(num / div)
+				}
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 522f340c680fab1c08dcec1ff24a137c7867b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 20/37] fix: don't crash healthd when a host responds with
 invalid aggregations

---
 healthd/healthd.go |  2 +-
 healthd/poll.go    | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 76d8907..aeb6dcc 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -241,7 +241,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			hd.intervalDuration = resp.IntervalDuration
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
diff --git a/healthd/poll.go b/healthd/poll.go
index 548a43f..c4f9998 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -2,6 +2,8 @@ package healthd
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
 	"github.com/gocraft/health"
 	"io/ioutil"
 	"net/http"
@@ -58,6 +60,13 @@ func poll(stream *health.Stream, hostPort string, responses chan<- *pollResponse
 		goto POLL_FINISH
 	}
 
+	if response.Code == 200 {
+		if err := validateAggregations(&response.HealthAggregationsResponse); err != nil {
+			response.Err = job.EventErr("poll.validate", err)
+			goto POLL_FINISH
+		}
+	}
+
 POLL_FINISH:
 
 	if response.Err != nil {
@@ -69,6 +78,44 @@ POLL_FINISH:
 	responses <- response
 }
 
+// validateAggregations returns an error if we can't aggregate resp, which came from a host that we don't control.
+func validateAggregations(resp *health.HealthAggregationsResponse) error {
+	if resp.IntervalDuration <= 0 {
+		return fmt.Errorf("invalid interval_duration: %d", resp.IntervalDuration)
+	}
+	for _, intAgg := range resp.IntervalAggregations {
+		if intAgg == nil {
+			return errors.New("null aggregation")
+		}
+		if err := validateMaps(intAgg.Timers, intAgg.EventErrs); err != nil {
+			return err
+		}
+		for _, jobAgg := range intAgg.Jobs {
+			if jobAgg == nil {
+				return errors.New("null job")
+			}
+			if err := validateMaps(jobAgg.Timers, jobAgg.EventErrs); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+func validateMaps(timers map[string]*health.TimerAggregation, eventErrs map[string]*health.ErrorCounter) error {
+	for _, timer := range timers {
+		if timer == nil {
+			return errors.New("null timer")
+		}
+	}
+	for _, eventErr := range eventErrs {
+		if eventErr == nil {
+			return errors.New("null event_err")
+		}
+	}
+	return nil
+}
+
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
-- 
2.43.0


From 68b2911c9846e298c1b704223d63e968b78b5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 21/37] fix: keep at least one interval in healthd when hosts
 use long intervals

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index aeb6dcc..640da23 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -243,6 +243,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		if hd.intervalDuration == 0 {
 			hd.intervalDuration = resp.IntervalDuration
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
+			if hd.maxIntervals < 1 {
+				hd.maxIntervals = 1 // the interval is longer than retain. Keep at least the latest interval.
+			}
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
 			return
-- 
2.43.0


From a65ac44446aaba59cf09a499b1fb21a9686cf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 22/37] fix: data race on healthd's interval duration

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index f392e8f..3452762 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 640da23..d4f1e93 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -175,6 +175,16 @@ func (hd *HealthD) poll(responses chan *pollResponse) {
 	responses <- nil
 }
 
+// getIntervalDuration is safe to call from any goroutine.
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	return time.Duration(atomic.LoadInt64((*int64)(&hd.intervalDuration)))
+}
+
+// setIntervalDuration is only called by the aggregator goroutine.
+func (hd *HealthD) setIntervalDuration(dur time.Duration) {
+	atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(dur))
+}
+
 func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 	if hd.shouldStop() {
 		return nil
@@ -241,7 +251,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration
+			hd.setIntervalDuration(resp.IntervalDuration)
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 			if hd.maxIntervals < 1 {
 				hd.maxIntervals = 1 // the interval is longer than retain. Keep at least the latest interval.
-- 
2.43.0


From 0fccad2872afe8946b268cca35a9ed8df48781e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 23/37] fix: answer healthd API requests that are pending when
 healthd stops

---
 healthd/healthd.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index d4f1e93..28c79be 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -40,6 +40,7 @@ type HealthD struct {
 	stopFlag           int64
 	stopAggregator     chan bool
 	stopStopAggregator chan bool
+	stopped            chan struct{} // closed when the aggregator has stopped
 	stopHTTP           func() bool
 }
 
@@ -76,6 +77,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.maxIntervals = 0       // We don't know this yet. See above.
 	hd.stopAggregator = make(chan bool)
 	hd.stopStopAggregator = make(chan bool)
+	hd.stopped = make(chan struct{})
 
 	for _, hp := range monitoredHostPorts {
 		hd.hostStatus[hp] = &HostStatus{
@@ -153,6 +155,7 @@ AGGREGATE_LOOP:
 		case hostsChan := <-hostsChanChan:
 			hostsChan <- hd.memorySafeHosts()
 		case <-hd.stopAggregator:
+			close(hd.stopped)
 			hd.stopStopAggregator <- true
 			break AGGREGATE_LOOP
 		}
@@ -190,8 +193,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.stopped:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.stopped:
+		return nil
+	}
 }
 
 func (hd *HealthD) getHosts() []*HostStatus {
@@ -199,8 +211,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.stopped:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.stopped:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
-- 
2.43.0


From 8bcbbb072ef36b3d0a0f2496fe96fa0b45344956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 24/37] fix: end healthd's goroutines when it stops

---
 healthd/debouncer.go |  6 +++++-
 healthd/healthd.go   | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/healthd/debouncer.go b/healthd/debouncer.go
index fc752a3..87aa54e 100644
--- a/healthd/debouncer.go
+++ b/healthd/debouncer.go
@@ -4,13 +4,17 @@ import (
 	"time"
 )
 
+// debouncer runs until needitdone is closed.
 // A) don't fire more than every 2 seconds B) the time between an input and output should be at most 2 seconds
 func debouncer(doit chan<- struct{}, needitdone <-chan struct{}, threshold time.Duration, sleepTime time.Duration) {
 	var oldestNeedItDone time.Time
 
 	for {
 		select {
-		case <-needitdone:
+		case _, ok := <-needitdone:
+			if !ok {
+				return
+			}
 			if oldestNeedItDone.IsZero() {
 				oldestNeedItDone = now()
 			}
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 28c79be..f99adf2 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -111,7 +111,7 @@ func (hd *HealthD) pollAndAggregate() {
 	ticker := time.Tick(10 * time.Second)
 
 	responses := make(chan *pollResponse, 64)
-	recalcIntervals := make(chan struct{})
+	recalcIntervals := make(chan struct{}, 1) // buffered so that the debouncer isn't stuck if we stop
 	recalcIntervalsRequest := make(chan struct{}, 64)
 	intervalsChanChan := hd.intervalsChanChan
 	hostsChanChan := hd.hostsChanChan
@@ -160,6 +160,7 @@ AGGREGATE_LOOP:
 			break AGGREGATE_LOOP
 		}
 	}
+	close(recalcIntervalsRequest) // ends the debouncer
 }
 
 // poll is meant to be alled in a new goroutine.
@@ -171,11 +172,21 @@ func (hd *HealthD) poll(responses chan *pollResponse) {
 		wg.Add(1)
 		go func(hs *HostStatus) {
 			defer wg.Done()
-			poll(hd.stream, hs.HostPort, responses)
+			response := make(chan *pollResponse, 1)
+			poll(hd.stream, hs.HostPort, response)
+			hd.respond(responses, <-response)
 		}(hs)
 	}
 	wg.Wait()
-	responses <- nil
+	hd.respond(responses, nil)
+}
+
+// respond sends response to responses, unless nobody will receive it because we're stopped.
+func (hd *HealthD) respond(responses chan<- *pollResponse, response *pollResponse) {
+	select {
+	case responses <- response:
+	case <-hd.stopped:
+	}
 }
 
 // getIntervalDuration is safe to call from any goroutine.
-- 
2.43.0


From a2cb89a011713d8eaae0d81d033f44c5a5106349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 25/37] fix: data race when goroutines emit the same emitted
 error again

---
 health.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/health.go b/health.go
index 81d5600..2b4184f 100644
--- a/health.go
+++ b/health.go
@@ -120,7 +120,7 @@ func (j *Job) EventErr(eventName string, err error) error {
 	for _, sink := range j.Stream.Sinks {
 		sink.EmitEventErr(j.JobName, eventName, err, allKvs)
 	}
-	if err, ok := err.(*UnmutedError); ok {
+	if err, ok := err.(*UnmutedError); ok && !err.Emitted {
 		err.Emitted = true
 	}
 	return err
@@ -132,7 +132,7 @@ func (j *Job) EventErrKv(eventName string, err error, kvs map[string]string) err
 	for _, sink := range j.Stream.Sinks {
 		sink.EmitEventErr(j.JobName, eventName, err, allKvs)
 	}
-	if err, ok := err.(*UnmutedError); ok {
+	if err, ok := err.(*UnmutedError); ok && !err.Emitted {
 		err.Emitted = true
 	}
 	return err
-- 
2.43.0


From a4c6fb674794a2e3222cd8423349fc22e43408a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 26/37] fix: data race when several goroutines ask for the
 frames of a trace

---
 stack/stack.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stack/stack.go b/stack/stack.go
index 1805a90..310e543 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -3,6 +3,7 @@ package stack
 import (
 	"bytes"
 	"runtime"
+	"sync"
 )
 
 // MaxStackDepth is the maximum number of stackframes on any error.
@@ -10,6 +11,7 @@ var MaxStackDepth = 50
 
 type Trace struct {
 	stack  []uintptr
+	once   sync.Once
 	frames []Frame
 }
 
@@ -23,7 +25,8 @@ func NewTrace(skip int) *Trace {
 
 // StackFrames returns an array of frames containing information about the stack.
 func (t *Trace) Frames() []Frame {
-	if t.frames == nil {
+	// Several sinks can ask for the frames of the same error at the same time.
+	t.once.Do(func() {
 		t.frames = make([]Frame, 0, len(t.stack))
 
 		// CallersFrames, unlike FuncForPC, knows about inlined calls.
@@ -35,7 +38,7 @@ func (t *Trace) Frames() []Frame {
 				break
 			}
 		}
-	}
+	})
 
 	return t.frames
 }
-- 
2.43.0


From c038ab28873f7e27093deb10a3b15181b34490fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 27/37] fix: don't crash when reporting an error without a
 stack trace to bugsnag

---
 sinks/bugsnag/api.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index 209fa0c..25af3b5 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -130,14 +130,17 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		ErrorClass: eventName,
 		Message:    err.Error(),
 	}
-	for _, frame := range trace.Frames() {
-		pf := payloadFrame{
-			File:       frame.File,
-			LineNumber: frame.LineNumber,
-			Method:     frame.Package + ":" + frame.Name,
-			InProject:  !frame.IsSystemPackage,
+	// An UnmutedError that wasn't made by health may have no trace.
+	if trace != nil {
+		for _, frame := range trace.Frames() {
+			pf := payloadFrame{
+				File:       frame.File,
+				LineNumber: frame.LineNumber,
+				Method:     frame.Package + ":" + frame.Name,
+				InProject:  !frame.IsSystemPackage,
+			}
+			except.Stacktrace = append(except.Stacktrace, pf)
 		}
-		except.Stacktrace = append(except.Stacktrace, pf)
 	}
 
 	evt := payloadEvent{
-- 
2.43.0


From 2a893fc1f7754f30aaba886da92f11d3a6d48fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 28/37] fix: ShutdownServer stops the HTTP servers that
 StartServer has started

Their listeners, ports and goroutines stayed forever, and GET /health on them
hung.
---
 json_polling_sink.go      | 13 +++++++++++++
 json_polling_sink_http.go |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/json_polling_sink.go b/json_polling_sink.go
index f0cc401..40597e2 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -1,6 +1,8 @@
 package health
 
 import (
+	"net/http"
+	"sync"
 	"time"
 )
 
@@ -10,6 +12,10 @@ type JsonPollingSink struct {
 	doneChan          chan int
 	doneDoneChan      chan int
 	intervalsChanChan chan chan []*IntervalAggregation
+
+	// servers are what StartServer has started.
+	serversMu sync.Mutex
+	servers   []*http.Server
 }
 
 type cmdKind int
@@ -51,6 +57,13 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 func (s *JsonPollingSink) ShutdownServer() {
 	s.doneChan <- 1
 	<-s.doneDoneChan
+
+	s.serversMu.Lock()
+	defer s.serversMu.Unlock()
+	for _, server := range s.servers {
+		server.Close()
+	}
+	s.servers = nil
 }
 
 func (s *JsonPollingSink) EmitEvent(job string, event string, kvs map[string]string) {
diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 40dac13..d8db229 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -14,7 +14,13 @@ type HealthAggregationsResponse struct {
 }
 
 func (s *JsonPollingSink) StartServer(addr string) {
-	go http.ListenAndServe(addr, s)
+	server := &http.Server{Addr: addr, Handler: s}
+
+	s.serversMu.Lock()
+	s.servers = append(s.servers, server)
+	s.serversMu.Unlock()
+
+	go server.ListenAndServe()
 }
 
 func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From df9c7660b6932affb815792610410352a2e18ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 29/37] fix: GetMetrics returns when the polling sink is shut
 down

It, and GET /health, blocked forever if called during or after ShutdownServer.
---
 json_polling_sink.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/json_polling_sink.go b/json_polling_sink.go
index 40597e2..eeda395 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -13,6 +13,9 @@ type JsonPollingSink struct {
 	doneDoneChan      chan int
 	intervalsChanChan chan chan []*IntervalAggregation
 
+	// stopped is closed when the aggregator has ended: nobody answers on intervalsChanChan anymore.
+	stopped chan struct{}
+
 	// servers are what StartServer has started.
 	serversMu sync.Mutex
 	servers   []*http.Server
@@ -47,6 +50,7 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 		doneChan:          make(chan int),
 		doneDoneChan:      make(chan int),
 		intervalsChanChan: make(chan chan []*IntervalAggregation),
+		stopped:           make(chan struct{}),
 	}
 
 	go startAggregator(intervalDuration, retain, s)
@@ -57,6 +61,7 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 func (s *JsonPollingSink) ShutdownServer() {
 	s.doneChan <- 1
 	<-s.doneDoneChan
+	close(s.stopped)
 
 	s.serversMu.Lock()
 	defer s.serversMu.Unlock()
@@ -88,6 +93,10 @@ func (s *JsonPollingSink) EmitComplete(job string, status CompletionStatus, nano
 
 func (s *JsonPollingSink) GetMetrics() []*IntervalAggregation {
 	intervalsChan := make(chan []*IntervalAggregation)
-	s.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case s.intervalsChanChan <- intervalsChan:
+		return <-intervalsChan
+	case <-s.stopped:
+		return nil
+	}
 }
-- 
2.43.0


From ad2f9e3f9f7cb4b6c8c9ff126808343087667c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 30/37] fix: standard deviation of a job with a huge count is
 NaN, so that /healthd/jobs fails

---
 healthd/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 3452762..3481e78 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -322,7 +322,7 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
-				div := float64(j.Count * (j.Count - 1))
+				div := float64(j.Count) * float64(j.Count-1)
 				if num > 0 { // rounding can make this negative if all timings are (nearly) the same
 					stddev = math.Sqrt(num / div)
 				}
-- 
2.43.0


From 0e184c93c94f8b6bce0e7f35b1245e481ffba2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 31/37] fix: reject sums of squares so large that sums overflow
 and healthd's API fails for all hosts

---
 healthd/poll.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/healthd/poll.go b/healthd/poll.go
index c4f9998..cb6819d 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/gocraft/health"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"time"
 )
@@ -94,6 +95,9 @@ func validateAggregations(resp *health.HealthAggregationsResponse) error {
 			if jobAgg == nil {
 				return errors.New("null job")
 			}
+			if err := validateTimer(&jobAgg.TimerAggregation); err != nil {
+				return err
+			}
 			if err := validateMaps(jobAgg.Timers, jobAgg.EventErrs); err != nil {
 				return err
 			}
@@ -107,6 +111,9 @@ func validateMaps(timers map[string]*health.TimerAggregation, eventErrs map[stri
 		if timer == nil {
 			return errors.New("null timer")
 		}
+		if err := validateTimer(timer); err != nil {
+			return err
+		}
 	}
 	for _, eventErr := range eventErrs {
 		if eventErr == nil {
@@ -116,6 +123,18 @@ func validateMaps(timers map[string]*health.TimerAggregation, eventErrs map[stri
 	return nil
 }
 
+// maxNanosSumSquares is more than any number of int64 timings that can be counted adds up to.
+var maxNanosSumSquares = math.Ldexp(1, 3*63)
+
+// validateTimer returns an error if the timer's sum of squares is out of range. If we'd let it in, our own sums could overflow
+// to Inf, which JSON can't represent.
+func validateTimer(timer *health.TimerAggregation) error {
+	if math.Abs(timer.NanosSumSquares) > maxNanosSumSquares {
+		return fmt.Errorf("invalid nanos_sum_squares: %v", timer.NanosSumSquares)
+	}
+	return nil
+}
+
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
-- 
2.43.0


From 0f3ffed5db125d285692ff9912aeb8067425d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 32/37] fix: healthtop stops updating the screen once there are
 as many rows as fit

---
 cmd/healthtop/hosts.go |  8 ++++++--
 cmd/healthtop/jobs.go  | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 2fbcd43..377cef6 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -89,11 +89,15 @@ func printHosts(lastApiResponse *healthd.ApiResponseHosts, status *healthdStatus
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, host := range lastApiResponse.Hosts {
+	hosts := lastApiResponse.Hosts
+	if max := maxRows(); uint(len(hosts)) > max {
+		hosts = hosts[:max]
+	}
+	for _, host := range hosts {
 		printHost(table, host)
 	}
 
-	goterm.Println(table)
+	printTable(table)
 }
 
 func printHost(table *goterm.Table, host *healthd.HostStatus) {
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 77bf16a..1e2932b 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -139,11 +139,21 @@ func printJobs(lastApiResponse *healthd.ApiResponseJobs, status *healthdStatus)
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, job := range lastApiResponse.Jobs {
+	jobs := lastApiResponse.Jobs
+	if max := maxRows(); uint(len(jobs)) > max {
+		jobs = jobs[:max]
+	}
+	for _, job := range jobs {
 		printJob(table, job)
 	}
 
-	goterm.Println(table)
+	printTable(table)
+}
+
+// printTable prints the table, which has at most maxRows rows. It leaves out the last newline, since goterm doesn't print
+// anything (and we'd show old data forever) if there are more lines than the terminal has.
+func printTable(table *goterm.Table) {
+	goterm.Print(strings.TrimSuffix(table.String(), "\n"))
 }
 
 func printJob(table *goterm.Table, job *healthd.Job) {
-- 
2.43.0


From 7c70bce70b7ebfae92a435d04f991512c2378870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 33/37] fix: Stop of a healthd whose port is in use never
 returns

---
 healthd/api.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 3481e78..4a40aff 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -89,9 +89,22 @@ func (hd *HealthD) startHttpServer(hostPort string, done chan bool) {
 		Addr:    hostPort,
 		Handler: hd.apiRouter(),
 	})
-	hd.stopHTTP = server.Close
+	served := make(chan struct{})
+	hd.stopHTTP = func() bool {
+		closed := make(chan bool, 1)
+		go func() {
+			closed <- server.Close() // never returns if we couldn't listen
+		}()
+		select {
+		case c := <-closed:
+			return c
+		case <-served:
+			return false
+		}
+	}
 	done <- true
 	server.ListenAndServe()
+	close(served)
 }
 
 func (c *apiContext) SetContentType(rw web.ResponseWriter, req *web.Request, next web.NextMiddlewareFunc) {
-- 
2.43.0


From df14987362b73ac07294cbee1fb560a8849417c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 34/37] fix: data race between the aggregator, which compares
 errors, and emitters and sinks, which change them

---
 interval_aggregation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/interval_aggregation.go b/interval_aggregation.go
index 6c2b37c..93d0324 100644
--- a/interval_aggregation.go
+++ b/interval_aggregation.go
@@ -1,6 +1,7 @@
 package health
 
 import (
+	"fmt"
 	"reflect"
 	"time"
 )
@@ -100,13 +101,19 @@ func (ec *ErrorCounter) addError(inputErr error) {
 	lastErr := ec.errorSamples[ec.errorSampleIndex]
 	if lastErr == nil {
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-	} else if !reflect.DeepEqual(lastErr, inputErr) {
+	} else if !sameError(lastErr, inputErr) {
 		n := len(ec.errorSamples)
 		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
 	}
 }
 
+// sameError doesn't look into the errors: they change once all sinks have been given them (see UnmutedError.Emitted),
+// and when another sink asks for their stack traces.
+func sameError(a, b error) bool {
+	return reflect.TypeOf(a) == reflect.TypeOf(b) && fmt.Sprint(a) == fmt.Sprint(b)
+}
+
 func (ec *ErrorCounter) getErrorSamples() []error {
 	// Count how many non-nil errors are there so we can make a slice of the right size
 	count := 0
-- 
2.43.0


From e6e54b28f45a76edb58bded5a10b203a46bc2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 35/37] fix: healthd loses hosts' data of intervals that other
 hosts still report after five intervals

---
 healthd/healthd.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index f99adf2..9caa8fc 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -28,6 +28,9 @@ type HealthD struct {
 	// let's keep the last 5 minutes worth of data from each host
 	hostAggregations map[hostAggregationKey]*health.IntervalAggregation
 
+	// lastReported maps from each interval in hostAggregations to when a host last reported it.
+	lastReported map[time.Time]time.Time
+
 	// intervalsNeedingRecalculation is a set of intervals that need to be recalculated. It is cleared when they are recalculated.
 	intervalsNeedingRecalculation map[time.Time]struct{}
 
@@ -44,6 +47,9 @@ type HealthD struct {
 	stopHTTP           func() bool
 }
 
+// reportedTimeout is how long after its last report we suppose that hosts may still report an interval. It spans several polls.
+const reportedTimeout = time.Minute
+
 type HostStatus struct {
 	HostPort string `json:"host_port"`
 
@@ -71,6 +77,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.hostsChanChan = make(chan chan []*HostStatus, 16)
 	hd.hostStatus = make(map[string]*HostStatus)
 	hd.hostAggregations = make(map[hostAggregationKey]*health.IntervalAggregation)
+	hd.lastReported = make(map[time.Time]time.Time)
 	hd.intervalsNeedingRecalculation = make(map[time.Time]struct{})
 	hd.retain = time.Hour * 2 // In the future this should be configurable
 	hd.intervalDuration = 0   // We don't know this yet. Will be configured from polled hosts.
@@ -296,6 +303,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		for _, intAgg := range resp.IntervalAggregations {
 			// Hosts report times in their own time zone. Use one zone so that equal times are equal keys.
 			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+			hd.lastReported[intAgg.IntervalStart] = time.Now()
 
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
@@ -314,14 +322,20 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	}
 }
 
-// purge purges old hostAggregations older than 5 intervals
+// purge purges old hostAggregations older than 5 intervals, unless a host still reports their interval: it would be recalculated
+// from what this host reports, without the data of the hosts that retain less.
 func (agg *HealthD) purge() {
 	var threshold = agg.intervalDuration * 5 // NOTE: this is arbitrary.
 	for k, _ := range agg.hostAggregations {
-		if time.Since(k.Time) > threshold {
+		if time.Since(k.Time) > threshold && time.Since(agg.lastReported[k.Time]) > reportedTimeout {
 			delete(agg.hostAggregations, k)
 		}
 	}
+	for t, last := range agg.lastReported {
+		if time.Since(t) > threshold && time.Since(last) > reportedTimeout {
+			delete(agg.lastReported, t)
+		}
+	}
 
 	n := len(agg.intervalAggregations)
 	if n > agg.maxIntervals {
-- 
2.43.0


From 919eb7120277516d2c55470e0e2d37cfc518d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 36/37] fix: healthtop shows [success] forever and piles up
 requests if healthd never answers

---
 cmd/healthtop/hosts.go | 3 +--
 cmd/healthtop/jobs.go  | 3 +--
 cmd/healthtop/main.go  | 4 ++++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 377cef6..15a1ec6 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -6,7 +6,6 @@ import (
 	"github.com/buger/goterm"
 	"github.com/gocraft/health/healthd"
 	"io/ioutil"
-	"net/http"
 	"strings"
 	"time"
 )
@@ -42,7 +41,7 @@ func pollHealthDHosts(responses chan *healthd.ApiResponseHosts, errors chan erro
 
 	uri := "http://" + sourceHostPort + "/healthd/hosts"
 
-	resp, err := http.Get(uri)
+	resp, err := httpClient.Get(uri)
 	if err != nil {
 		errors <- err
 		return
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 1e2932b..76e2244 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -6,7 +6,6 @@ import (
 	"github.com/buger/goterm"
 	"github.com/gocraft/health/healthd"
 	"io/ioutil"
-	"net/http"
 	"net/url"
 	"strings"
 	"time"
@@ -67,7 +66,7 @@ func pollHealthDJobs(opts *jobOptions, responses chan *healthd.ApiResponseJobs,
 		uri = uri + "?" + params
 	}
 
-	resp, err := http.Get(uri)
+	resp, err := httpClient.Get(uri)
 	if err != nil {
 		errors <- err
 		return
diff --git a/cmd/healthtop/main.go b/cmd/healthtop/main.go
index 5aa7506..fde8ae7 100644
--- a/cmd/healthtop/main.go
+++ b/cmd/healthtop/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"fmt"
 	"github.com/spf13/cobra"
+	"net/http"
 	"time"
 )
 
@@ -34,6 +35,9 @@ func (s *healthdStatus) FmtStatus() string {
 
 var sourceHostPort string
 
+// httpClient gives up on a healthd that doesn't answer, so that we can say so and don't pile up requests.
+var httpClient = &http.Client{Timeout: 5 * time.Second}
+
 func main() {
 	var cmdRoot = &cobra.Command{
 		Use: "healthtop [command]",
-- 
2.43.0


From 270d7f13ebbd9dc8d084a756bd74d2398cdca572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 37/37] fix: don't let a gauge whose square overflows drop a
 whole librato flush

---
 sinks/librato/sink.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 60c2901..f6cd2c5 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -244,12 +244,12 @@ func (s *Sink) inc(key string) {
 func (s *Sink) measure(key string, value float64) {
 	g, ok := s.timers[key]
 	if !ok {
-		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: value * value, Attributes: defaultTimerAttributes}
+		g = &gauge{Min: value, Max: value, Sum: value, Count: 1, SumSquares: saturate(value * value), Attributes: defaultTimerAttributes}
 		s.timers[key] = g
 	} else {
 		g.Count++
-		g.Sum += value
-		g.SumSquares += value * value
+		g.Sum = saturate(g.Sum + value)
+		g.SumSquares = saturate(g.SumSquares + value*value)
 
 		if value < g.Min {
 			g.Min = value
@@ -260,6 +260,11 @@ func (s *Sink) measure(key string, value float64) {
 	}
 }
 
+// saturate limits sums that are out of range. JSON can't represent Inf, so that we'd lose everything else in this flush.
+func saturate(sum float64) float64 {
+	return math.Max(-math.MaxFloat64, math.Min(sum, math.MaxFloat64))
+}
+
 func (s *Sink) purge() {
 	if err := s.send(); err != nil {
 		fmt.Println("Error sending to librato: ", err)
-- 
2.43.0

