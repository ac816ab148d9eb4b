#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts are kept here, one call each)."""
import json, os
OUT = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    OUT.append(d)


prop("C01", "Every emission reaches every attached sink exactly once, unaltered, in order",
     "Each event, error, timing, gauge and completion emitted on a stream or on one of its jobs is delivered synchronously, exactly once, to every sink attached to that stream at that moment, and to no other sink, in the order in which the emissions were made. The sink gets the job's name (\"general\" for emissions on the stream itself) and the event name, value, status and error message exactly as they were emitted, whatever characters or numbers they consist of.",
     ["histories", "inputs"], "All interleavings of emissions, job creations and sink additions over several streams, with arbitrary names and values.",
     "The tests emit single events to one sink; nothing covers several sinks, sinks added later, several streams or odd names and values.",
     ["health.go"], [("Job.Event/EventKv/EventErr/EventErrKv/Timing/TimingKv/Gauge/GaugeKv/Complete/CompleteKv loop over Stream.Sinks", "health.go")],
     [("Stream.Sinks", "sinks attached so far", "health.go"), ("Stream.Job", "the implicit job \"general\"", "health.go")], ["Sink.Emit*"])
prop("C02", "Key/values merge as stream < job < call, without leaking or being mutated",
     "Every sink call carries exactly the union of the key/values set so far on the stream, on the job and given with the call, where the call's value wins over the job's and the job's over the stream's. Emitting never modifies the caller's map or the key/values of a stream or job, and key/values never leak to other jobs, other streams, or other calls.",
     ["histories", "inputs"], "All sequences of KeyValue calls and emissions on several streams and jobs with colliding keys.",
     "The tests check one merge on one job; precedence and leaks depend on which of the three maps are empty, and on what was emitted before.",
     ["health.go"], [("Job.mergedKeyValues", "health.go"), ("Stream.KeyValue, Job.KeyValue", "health.go")],
     [("Stream.KeyValues, Job.KeyValues", "key/values set so far", "health.go")], ["Sink.Emit* kvs argument"])
prop("C03", "An error is wrapped once, keeps its identity, and muted errors stay muted",
     "Emitting an error that is neither muted nor unmuted itself (even if it has such an error inside) hands all sinks, and returns to the caller, one and the same unmuted error that wraps it, with a stack trace that starts at the line that emitted it, and which is marked as emitted once the call has returned but not while sinks first see it. Emitting an error that is already wrapped (as returned by an earlier call) passes on that very error, still marked as emitted, with its original stack trace. A muted error is passed on and returned as that very muted error, whatever it wraps, and the message never changes.",
     ["histories", "inputs"], "All sequences of emissions of plain, custom, muted and previously returned errors, from any kind of call site.",
     "The tests wrap single errors; emitting returned errors again, muting them, different call sites (closures, goroutines, interfaces, inlined code) are not covered.",
     ["error.go", "health.go"], [("wrapErr", "error.go"), ("Emitted flag set after the sink loop", "health.go")], [("UnmutedError.Emitted", "already handed to sinks", "error.go")], ["Sink.EmitEventErr", "return value of EventErr/EventErrKv"])
prop("C04", "Run completes a job exactly once, with the right status, also on panics",
     "Running a function as a job calls it exactly once, emits exactly one completion for that job after everything that was emitted inside, and returns the function's own error: status success if it returned nil, error if it returned an error. If the function panics with any value, the panic does not escape: the job emits an error event \"panic\" with the panic's text as message and a key/value \"stack\" that shows where it panicked, completes once with status panic, and Run returns an error with the panic's text.",
     ["histories", "inputs"], "All nestings of Run calls on streams and jobs, returning any error or panicking with any value.",
     "The tests run a handful of single-level functions; nesting, reused jobs, runtime panics and non-string panic values are not covered.",
     ["health.go"], [("Job.Run deferred recover", "health.go"), ("Stream.Run", "health.go")], (), ["Sink.EmitComplete", "Sink.EmitEventErr", "return value of Run"])
prop("C05", "A completion carries the job's exact duration, the same for every sink",
     "The duration of a completion is the time from the creation of the job (of the stream, for completions on the stream itself) to the Complete or Run call that ends it, in nanoseconds. All sinks get the same duration for the same completion, however slow other sinks are.",
     ["histories", "schedules"], "All sequences of job creations, pauses and completions, with sinks that take arbitrarily long.",
     "The tests cannot control the clock and only check that some duration arrives.",
     ["health.go"], [("Job.Complete/CompleteKv measure time.Since(Start)", "health.go")], [("Job.Start", "creation time", "health.go")], ["Sink.EmitComplete nanoseconds"])
prop("C06", "The polling sink's aggregates equal the emissions of each interval, exactly",
     "For every retained interval, the polling sink reports exactly what was emitted during that interval, both overall and for each job: the count of each event and error event, the last (finite) value of each gauge, and for each timing and for each job's completions the count, sum, sum of squares, minimum and maximum in nanoseconds, plus the number of completions per status. Nothing is lost, counted twice, or attributed to another job, name or interval.",
     ["histories", "inputs"], "All histories of emissions spread over any number of intervals, for any interval length.",
     "The tests emit a few values into single intervals with a frozen clock; boundaries, many emissions, extreme values and mixed names are not covered.",
     ["aggregator.go", "interval_aggregation.go", "json_polling_sink.go"], [("aggregator.Emit*", "aggregator.go"), ("TimerAggregation.ingest, JobAggregation.ingest", "interval_aggregation.go")],
     [("aggregator.intervalAggregations", "retained intervals", "aggregator.go")], ["JsonPollingSink.GetMetrics"])
prop("C07", "The polling sink retains a sliding window of aligned intervals up to now",
     "For intervals of at least a second, GetMetrics returns intervals in ascending order, each starting at a multiple of the interval length, all different, the last one containing the present moment, and at most as many as fit in the retention time (but at least the current one). No interval that still fits in that window is missing once the sink has existed during it, and none is older than the window, also after idle periods of any length.",
     ["histories", "configurations"], "All interval lengths and retention times, and all sequences of emissions, idle periods and queries.",
     "The tests step a frozen clock over one configuration without the running sink; idle periods, odd ratios and retention shorter than the interval are not covered.",
     ["aggregator.go"], [("aggregator.getIntervalAggregation, createIntervalAggregation", "aggregator.go"), ("1 s ticker that slides the window", "aggregator.go startAggregator")],
     [("aggregator.maxIntervals", "retain / interval", "aggregator.go")], ["JsonPollingSink.GetMetrics"])
prop("C08", "Snapshots and clones never change with later activity",
     "What GetMetrics returned never changes afterwards, whatever is emitted and however much time passes. A clone of an aggregation equals the original, and changing either of them (by merging into it or editing its contents) never changes the other.",
     ["histories"], "All histories in which snapshots or clones are taken and activity continues.",
     "One test clones one aggregation and adds to the original; sharing of nested maps and entries at other moments is not covered.",
     ["aggregator.go", "interval_aggregation_clone.go"], [("aggregator.memorySafeIntervals", "aggregator.go"), ("IntervalAggregation.Clone and the Clone methods it uses", "interval_aggregation_clone.go")], (), ["JsonPollingSink.GetMetrics", "IntervalAggregation.Clone"])
prop("C09", "An interval's serial number changes exactly when its contents change",
     "Between any two snapshots, the serial number of an interval has increased if anything was emitted into that interval in between, and is unchanged if nothing was. In particular equal serial numbers of the same interval mean equal contents, so that a poller may skip intervals whose serial number it has already seen.",
     ["histories"], "All histories of emissions, idle time and snapshots.",
     "The tests do not look at serial numbers across snapshots.",
     ["aggregator.go", "interval_aggregation.go"], [("SerialNumber++ in every aggregator.Emit*", "aggregator.go")], [("IntervalAggregation.SerialNumber", "version of the contents", "interval_aggregation.go")], ["JsonPollingSink.GetMetrics", "/health serial_number"])
prop("C10", "Merging aggregations equals aggregating the union of their emissions",
     "Merging any number of aggregations gives the same counts, sums, sums of squares, minima, maxima, statuses and jobs as aggregating all their emissions together, in whatever grouping or order they are merged, including with jobs or timers that occur on one side only or have no completions; a gauge takes the value of the aggregation merged last that has it. The merged-in aggregations are not changed, and later changes of the result do not change them either; the result's serial number changes.",
     ["inputs", "histories"], "All sets of aggregations and all ways to merge them.",
     "One test merges two hand-made aggregations.",
     ["interval_aggregation_merge.go", "interval_aggregation_clone.go"], [("IntervalAggregation.Merge and the merge methods it uses", "interval_aggregation_merge.go")], (), ["IntervalAggregation.Merge"])
prop("C11", "/health serves valid JSON that equals the aggregated data; other paths get 404",
     "GET /health on a polling sink always answers 200 with a complete, valid JSON document that holds the instance id (always the same one for a process; processes that run at the same time on one machine, or on machines with different names, have different ones), the interval length and exactly the retained aggregations, whatever characters the names contain and whatever values were emitted (a gauge that is not a finite number is left out and harms nothing else). Any other path answers 404 with a JSON error. The content type is JSON.",
     ["inputs", "histories"], "All emitted names and values, and all request paths.",
     "The tests fetch /health once with one harmless name.",
     ["json_polling_sink_http.go", "aggregator.go", "interval_aggregation.go"], [("JsonPollingSink.ServeHTTP", "json_polling_sink_http.go"), ("json tags of the aggregation types", "interval_aggregation.go")], (), ["HTTP responses of JsonPollingSink"])
prop("C12", "Concurrent emissions lose nothing and race with nothing",
     "Any number of goroutines may emit on the same stream and jobs, with any mix of sinks attached, while others take snapshots, serve HTTP requests, drain, or run jobs: each emission is counted exactly once by every sink, each goroutine's emissions keep their order, written lines are never mixed up, and there are no data races or deadlocks. Likewise a healthd answers concurrent API requests with complete documents at any moment of its polling, with no data race.",
     ["schedules", "histories"], "All interleavings of concurrent emitters and readers.",
     "The tests are single-threaded except for the sinks' own goroutines.",
     ["health.go", "json_polling_sink.go", "aggregator.go", "statsd_sink.go", "writer_sink.go", "json_writer_sink.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go", "stack/stack.go", "healthd/healthd.go", "healthd/api.go"],
     [("command channels of the asynchronous sinks", "json_polling_sink.go, statsd_sink.go, sinks/*/sink.go"), ("one Write per line", "writer_sink.go, json_writer_sink.go")], (), ["sinks' outputs", "the race detector"])
prop("C13", "WriterSink writes each emission as one complete, faithful line in one Write",
     "WriterSink turns each emission into exactly one Write of one newline-terminated line: the time in UTC (RFC 3339), the job, the event or status, the error, value or time if any, and the key/values sorted by key, with all texts verbatim. Times are given in whole ns up to 2000 ns, whole μs up to 2000 μs, and whole ms above that, rounded down; gauges are given so that reading them back gives the same number.",
     ["inputs"], "All names, messages, key/values, statuses, durations and gauge values.",
     "The tests match a few lines against regular expressions, with at most two key/values.",
     ["writer_sink.go", "health.go"], [("WriterSink.Emit*, writeMapConsistently, writeNanoseconds", "writer_sink.go"), ("CompletionStatus.String", "health.go")], (), ["io.Writer of WriterSink"])
prop("C14", "JsonWriterSink writes each emission as one JSON object that round-trips",
     "JsonWriterSink turns each emission into exactly one Write of one valid JSON object from which the job, the event or status, the time of the emission (UTC, RFC 3339), the error message, value or nanoseconds, and the key/values can be read back unchanged (texts being valid UTF-8, and gauges finite). A gauge that is not a finite number never results in invalid JSON being written.",
     ["inputs"], "All names, messages, key/values, statuses, durations and gauge values.",
     "The tests decode one object per kind.",
     ["json_writer_sink.go"], [("JsonWriterSink.Emit* via encoding/json", "json_writer_sink.go")], (), ["io.Writer of JsonWriterSink"])
prop("C15", "The StatsD sink sends exactly the documented metric lines per emission",
     "For each emission the StatsD sink sends, in order and to the IPv4 or IPv6 address it was created with, a line for the event alone and one for job.event, unless an option skips one of them: a counter of 1 for an event, a counter of 1 with suffix .error for an error, a timer in milliseconds for a timing, a gauge for a gauge, and for a completion one timer named job.status. Keys are prefixed with the configured prefix, joined by dots (skipping empty parts), and sanitised (by default all bytes other than A-Za-z0-9_. become $, or by the configured function); timers below 10 ms have two decimals and others are whole ms, rounded down; gauges have two decimals, or all significant digits if they are within 0.1 of zero. Creating a sink with a malformed address (no port, or an impossible one) fails with an error.",
     ["inputs", "configurations", "histories"], "All addresses, options, names and values, and all histories that reuse names.",
     "The tests send single emissions with plain names through a few options; reuse of cached keys with other values, collisions of job, event and suffix, odd names and boundaries are not covered.",
     ["statsd_sink.go"], [("StatsDSink.processEvent/EventErr/Timing/Gauge/Complete", "statsd_sink.go"), ("getPrefixBuffer cache, writeSanitizedKeys, sanitizeKey", "statsd_sink.go")],
     [("StatsDSink.prefixBuffers", "cached key per job, event and suffix", "statsd_sink.go")], ["UDP datagrams received by the StatsD daemon"])
prop("C16", "StatsD datagrams are at most 1440 bytes of whole lines; nothing else is dropped",
     "Every datagram the StatsD sink sends has between 1 and 1440 bytes and consists of whole newline-terminated metric lines. Concatenating the datagrams gives all metric lines in the order they were emitted, without loss or duplication; only a single line longer than 1440 bytes is dropped, without affecting others.",
     ["inputs", "histories"], "All sequences of line lengths, in particular those that fill a datagram exactly, almost, or not at all.",
     "The tests fill a datagram once with equal lines.",
     ["statsd_sink.go"], [("StatsDSink.writeStatsDMetric, flush", "statsd_sink.go")], [("StatsDSink.udpBuf", "lines not sent yet", "statsd_sink.go")], ["UDP datagrams received by the StatsD daemon"])
prop("C17", "StatsD Drain sends everything and always returns; the rest is flushed in time",
     "Drain returns, and when it does, everything the caller emitted before has been sent, also with any number of concurrent Drain calls and emitters, and with a Stop that comes after it. Without Drain, emissions are sent within 200 ms. Stop (called once) always returns, and nothing emitted before a completed Drain is lost by it.",
     ["schedules", "histories"], "All interleavings of emissions, concurrent Drain calls, a Stop, and idle time.",
     "The tests call Drain from one goroutine with an idle sink.",
     ["statsd_sink.go"], [("StatsDSink.loop, Drain, Stop", "statsd_sink.go"), ("100 ms flush ticker", "statsd_sink.go")], [("StatsDSink.cmdChan", "commands in order", "statsd_sink.go")], ["UDP datagrams", "Drain and Stop returning"])
prop("C18", "Bugsnag gets exactly one report per unmuted error, and none for anything else",
     "Each unmuted error that is emitted for the first time is reported to Bugsnag exactly once, in order, however many are emitted in a burst; emitting the returned error again (on any job or stream) is not reported again. Muted errors, events, timings, gauges and completions are never reported.",
     ["histories"], "All histories of emissions of errors (new, muted, returned by earlier calls), in bursts of any size.",
     "One test sends one error.",
     ["sinks/bugsnag/sink.go", "error.go", "health.go"], [("Sink.EmitEventErr", "sinks/bugsnag/sink.go"), ("errorProcessingLoop", "sinks/bugsnag/sink.go")], [("Sink.cmdChan", "reports not sent yet", "sinks/bugsnag/sink.go")], ["HTTP requests to the Bugsnag endpoint"])
prop("C19", "A Bugsnag report is faithful to the error, its stack, key/values and config",
     "Each Bugsnag report is one POST of valid JSON to the configured endpoint (by default https://notify.bugsnag.com/) with the API key, the event name as error class, the error's message, the job as context, the release stage (by default production), the host name (by default the machine's), the app version if configured, the stack trace from where the error was emitted (file, line and method of each frame, in order, and whether it is in the project), and the key/values as they were when the error was emitted, even if they are changed before the report is sent. Key/values \"request\" and \"formdata\" are given as the request's URL and parameters.",
     ["inputs", "configurations", "histories"], "All configurations, names, messages and key/values, and all histories that change key/values later.",
     "One test compares one payload with one configuration.",
     ["sinks/bugsnag/api.go", "sinks/bugsnag/sink.go", "stack/stack.go"], [("newPayload, Notify", "sinks/bugsnag/api.go"), ("NewSink defaults, copyKvs", "sinks/bugsnag/sink.go")], (), ["HTTP requests to the Bugsnag endpoint"])
prop("C20", "Each emission counts in exactly one Librato window, with exact aggregates",
     "The Librato sink posts once every flush period (15 s), and only if something was emitted since the last post. Each emission is counted in exactly one post, the first one after it: the posted counts of events and errors, and the count, sum, sum of squares, minimum and maximum of timings, completions (in ms) and gauges, overall and per job, are exactly those of the emissions since the previous post (sums beyond the range of a float64 are the largest that it has).",
     ["histories", "inputs"], "All histories of emissions and idle time over many flush periods.",
     "The tests call single processing steps and look at counters; no test lets a flush happen.",
     ["sinks/librato/sink.go"], [("Sink.start, purge, send, measure, inc", "sinks/librato/sink.go")], [("Sink.timers, Sink.counters", "current window", "sinks/librato/sink.go")], ["HTTP requests to Librato"])
prop("C21", "Librato posts have the documented keys, authentication and format",
     "Every post goes to Librato's metrics URL with the configured user and API key and a JSON body with the time of the post, the period and the host as source, and gauges keyed [prefix.]event.suffix and [prefix.]job.event.suffix with suffix count, error.count, timing or gauge, and [prefix.]job.status.timing for completions; characters of jobs and events outside A-Za-z0-9.:-_ are replaced by _ each. Counters are marked with unit count and all others with ms, all as aggregated, and values that are not finite numbers are left out without affecting the rest.",
     ["inputs", "configurations"], "All credentials, prefixes, names and values.",
     "The tests check a few keys without prefixes or odd characters, and never look at a request.",
     ["sinks/librato/sink.go"], [("eventKeys, processComplete, sanitizeKey, send", "sinks/librato/sink.go")], (), ["HTTP requests to Librato"])
prop("C22", "Stack traces name every caller in order, with exact file, line, package and name",
     "A stack trace lists the frames from the requested caller (skipping as many as asked) outwards, in order, without gaps or invented frames, up to the configured maximum depth: each with the file and line being executed, and the package path and function name of the function, also for methods, closures, recursion, generic and inlined functions. A frame counts as system code exactly if its file is inside the Go installation, and the printed trace has one line \"file:line name\" per frame. Asking for the frames again gives the same result, and a frame made from the program counter of a call that was not inlined says the same (but nothing if the program counter is of no function).",
     ["inputs", "configurations"], "All call chains of functions, methods, closures, goroutines and deferred calls, all skips and maximum depths, with and without inlining.",
     "The tests check two fixed chains with inlining switched off.",
     ["stack/stack.go", "stack/frame.go"], [("NewTrace, Trace.Frames, Trace.Stack", "stack/stack.go"), ("NewFrame, packageAndName, isSystemPackage", "stack/frame.go")], [("MaxStackDepth", "limit of recorded frames", "stack/stack.go")], ["stack.Trace"])
prop("C23", "Runtime metrics report the configured gauges correctly, each interval until Stop",
     "Every interval after Start until Stop, and on every call of Report, exactly the gauges of the enabled option groups are reported, once each (all groups, every 5 s, without options): memory, garbage collection, pause quantiles, goroutines, cgo calls and file descriptors. Their values agree with what the Go runtime and the operating system report at that time. After Stop has returned nothing more is reported.",
     ["configurations", "histories"], "All combinations of options and intervals, and all sequences of start, stop, report and idle time.",
     "One test calls Report once with all options and only checks that the keys exist.",
     ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("RuntimeMetrics.Report, metricsPoller, Start, Stop", "runtime_metrics/runtime_metrics.go"), ("getFDUsage", "runtime_metrics/fds_linux.go")], (), ["EventReceiver.Gauge calls"])
prop("C24", "healthd's aggregations are exactly the merge of the hosts' latest data",
     "For hosts whose clocks agree, /healthd/aggregations reports for each interval the merge of the latest aggregation that each instance of each host has reported for it: every emission on every host that was polled counts exactly once, no matter how often, in which order and with which delay hosts are polled, whether they restart as new instances, go away, come back, retain different numbers of intervals, or write times in different time zones. (Only when an interval that is more than five intervals ago has not been reported by any host for a while may what then still comes in for it replace it.) Once responses stop changing, the result is up to date within three seconds of the last response.",
     ["histories", "schedules", "fault_sequences"], "All histories of emissions, polls, delays, failures and restarts over several hosts.",
     "One test (which needs a dependency that is not available here) polls two hosts once.",
     ["healthd/healthd.go", "healthd/poll.go", "healthd/debouncer.go", "interval_aggregation_merge.go"], [("consumePollResponse, recalculateIntervals, setAggregation, purge", "healthd/healthd.go"), ("debouncer", "healthd/debouncer.go")],
     [("hostAggregations", "latest aggregation per interval, instance and host", "healthd/healthd.go"), ("intervalsNeedingRecalculation", "changed intervals", "healthd/healthd.go")], ["GET /healthd/aggregations"])
prop("C25", "healthd's overall and jobs views agree with its aggregations, sorted and limited",
     "/healthd/aggregations/overall is the merge of all intervals that /healthd/aggregations reports, and /healthd/jobs lists each of its jobs exactly once with its counts, sum, minimum, maximum, average and sample standard deviation (zero for fewer than two). The jobs are sorted as asked (by name ascending, by anything else descending), and a positive limit keeps just the first that many; all answers are valid JSON whatever the names contain, and unknown paths get 404.",
     ["inputs", "histories"], "All data, sort orders and limits.",
     "One test looks at one job.",
     ["healthd/api.go"], [("combineAggregations, filterJobs, sortJobs, renderJson", "healthd/api.go")], (), ["GET /healthd/aggregations/overall", "GET /healthd/jobs"])
prop("C26", "healthd's host list tells the truth about the last poll of each host",
     "/healthd/hosts lists each monitored host exactly once, sorted by host, with the time, response time, status code, error, instance and interval length of its last poll, and the times of its first and last successful response (status 200 with a valid body). A poll without a readable answer sets the error, no failed poll changes the times of successful responses, and a successful poll clears the error.",
     ["histories", "fault_sequences"], "All histories of successful polls, error statuses, invalid bodies, refused connections and timeouts.",
     "One test looks at two hosts after one successful poll.",
     ["healthd/healthd.go", "healthd/poll.go", "healthd/api.go"], [("consumePollResponse, memorySafeHosts", "healthd/healthd.go"), ("poll", "healthd/poll.go")], [("hostStatus", "status per host", "healthd/healthd.go")], ["GET /healthd/hosts"])
prop("C27", "Bad, slow or many hosts never crash or stall healthd or spoil other hosts' data",
     "Whatever a host answers (malformed or truncated JSON, null entries, wrong types, nonsense interval lengths, error statuses, huge bodies, nothing at all) and however slowly, healthd keeps running, keeps polling all hosts every ten seconds, gives up on a host that does not answer before it polls that host again, keeps answering its API, and reports the other hosts' data and states as if that host were merely failing (except that the first valid response determines the length of the intervals; what is reported for intervals of another length is not merged). The same holds for any number of hosts that respond at the same time.",
     ["fault_sequences", "inputs", "schedules"], "All response bodies, statuses, delays and numbers of hosts.",
     "No test has a host misbehave.",
     ["healthd/poll.go", "healthd/healthd.go", "healthd/debouncer.go"], [("poll timeout and error handling, validateAggregations", "healthd/poll.go"), ("pollAndAggregate channels", "healthd/healthd.go")], (), ["healthd API", "requests to hosts"])
prop("C28", "healthd retains ordered, distinct intervals covering the last two hours",
     "/healthd/aggregations lists intervals in ascending order of their start, each once, at most as many as fit in two hours (but at least the latest), and drops the oldest first. Data of an interval stays there, unchanged, after hosts no longer report that interval, until it is too old.",
     ["histories", "configurations"], "All interval lengths and histories of hours of operation with gaps.",
     "No test runs longer than one poll.",
     ["healthd/healthd.go"], [("setAggregation, purge", "healthd/healthd.go")], [("intervalAggregations, maxIntervals", "retained intervals", "healthd/healthd.go")], ["GET /healthd/aggregations"])
prop("C29", "healthtop and the healthd command show what healthd and its hosts serve",
     "healthtop jobs and healthtop hosts fill the terminal, within seconds and for as long as they run, with what the healthd given by --source serves: the jobs in the order asked for by --sort (by name if it isn't given), only those whose name contains --name, as many as fit in the terminal, each with its counts, its times in suitable units and colours by how it is doing; or each host with its status (Success, Unknown or Failure with the reason). When requests fail, aren't answered within several seconds, or answers make no sense, healthtop goes on, shows the last data it got together with the error, and shows new data once there is some. The command healthd monitors the hosts in HEALTHD_MONITORED_HOSTPORTS and itself, serves its API on HEALTHD_SERVER_HOSTPORT and its own metrics on HEALTH_HOSTPORT, logs to standard output, and without hosts to monitor says so and exits with status 1.",
     ["inputs", "fault_sequences", "configurations"], "All contents of jobs and hosts, flags, terminal sizes (of at least ten lines, wide enough) and sequences of answers and faults; all sets of hosts and their data.",
     "The commands have no tests.",
     ["cmd/healthtop/main.go", "cmd/healthtop/jobs.go", "cmd/healthtop/hosts.go", "cmd/healthd/main.go"],
     [("jobsLoop, printJobs", "cmd/healthtop/jobs.go"), ("hostsLoop, printHosts", "cmd/healthtop/hosts.go"), ("main", "cmd/healthd/main.go")], (), ["the terminal", "HTTP API", "standard output, exit status"])
prop("C30", "Stopping a component returns soon, leaves nothing running and emits nothing more",
     "Stopping a polling, StatsD, Librato or Bugsnag sink, a runtime-metrics reporter or healthd returns in bounded time in whatever state it is in (idle, busy, full, in the middle of a request to a slow or failing server, with requests pending), after which it starts no more requests, sends, polls, serves or reports nothing more, and all of its goroutines end (requests that are already going on may time out first). Requests for data that are pending or made when healthd or a polling sink stops are answered.",
     ["schedules", "histories", "fault_sequences"], "All moments of stopping, relative to emissions, flushes, requests and timers.",
     "The tests stop some components at the end without looking at what remains.",
     ["json_polling_sink.go", "json_polling_sink_http.go", "aggregator.go", "statsd_sink.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go", "runtime_metrics/runtime_metrics.go", "healthd/healthd.go", "healthd/debouncer.go"],
     [("ShutdownServer, Stop and the channels they use", "all of these files")], (), ["Stop and ShutdownServer returning", "goroutines", "outgoing requests"])
prop("C31", "Failing or stalled endpoints never stop later reports to Bugsnag and Librato",
     "When the Bugsnag or Librato endpoint refuses connections, answers with any status or body, breaks off, or never answers, the sink gives up on that request within a bounded time (a minute) and sends all later reports and posts as usual, without resending or losing any of them; emitting goes on working. Response bodies are always closed, so that connections do not leak. A report that is sent by calling the Bugsnag client directly returns an error if it was not accepted, and none if it was.",
     ["fault_sequences", "histories"], "All sequences of faults of the endpoint, interleaved with emissions.",
     "The tests use an endpoint that works.",
     ["sinks/bugsnag/api.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go"], [("HTTP client timeouts, error handling in the loops", "sinks/bugsnag/api.go, sinks/librato/sink.go")], (), ["HTTP requests and response bodies"])
prop("C32", "healthd reports its own polls, recalculations and API requests on its stream",
     "On the stream that it was given, healthd reports each poll of a host, when it is over, as exactly one completion of the job \"poll\" with the host as host_port and with the time that the poll took: with status Success if the host's answer was complete and valid, and otherwise with status Error together with exactly one error event that names the step that failed (poll.client.get, poll.ioutil.read_all, poll.json.unmarshall, poll.validate). It reports each request to one of its API's endpoints as one event starting_request and then one completion of a job named after the endpoint, with the path and the status code, with status Success if the code is below 400. New data from hosts is followed by a successful completion of the job \"recalculate\", and nothing else is reported of these jobs.",
     ["histories", "fault_sequences"], "All histories of answers, faults, delays and API requests.",
     "No test looks at what healthd reports about itself.",
     ["healthd/poll.go", "healthd/api.go", "healthd/healthd.go"], [("poll", "healthd/poll.go"), ("HealthMiddleware", "healthd/api.go"), ("recalculateIntervals", "healthd/healthd.go")], (), ["sinks of the stream given to StartNewHealthD"])
prop("C33", "Memory stays bounded however long components run",
     "Neither memory nor the number of goroutines grows with the time that a stream and its sinks, the runtime-metrics reporter and healthd run, or with the number of emissions, jobs, errors, snapshots, reports, failed requests, polls, restarts of hosts and API requests. A polling sink holds only the intervals that it retains, the Librato sink only the current window, the StatsD sink only what it needs for each name, and healthd only its hosts' latest intervals and the intervals that it retains. What a finished job, a sent report or an expired interval consisted of is given up, and so is everything of a component that has been stopped and dropped.",
     ["histories", "fault_sequences"], "All cycles of emissions, sleeps, requests, faults and restarts, repeated without end and with data never seen before.",
     "The tests run for less than a second.",
     ["json_polling_sink.go", "aggregator.go", "statsd_sink.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go", "runtime_metrics/runtime_metrics.go", "healthd/healthd.go"],
     [("aggregator's rotation of intervals", "aggregator.go"), ("purge", "sinks/librato/sink.go"), ("purge, setAggregation", "healthd/healthd.go")], (), ["the live heap", "goroutines"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in OUT:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(OUT))
