"""What each property's check runs: sub-checks (a Go test of the harness each) with case counts per tier."""

CHECKS = {}


def check(prop, rule, *subs, level="exploration", **kw):
    CHECKS[prop] = dict(rule=rule, subs=list(subs), level=level, **kw)


def sub(pkg, test, quick, thorough, **kw):
    return dict(pkg=pkg, test=test, quick=quick, thorough=thorough, **kw)


check("C01", "Programs of 1 to 150 operations over 1 to 3 streams, their jobs and sinks (sinks also added half-way), drawn by rapid; "
      "non-trivial: at least two emissions, at least one of them with several sinks attached. Distinct by hash of the case.",
      sub("stream", "TestC01_fanout", 240000, 1920000))
check("C02", "As C01 with many key/values on streams, jobs and calls; non-trivial: a call with key/values on a job or stream that has "
      "some too, and several sinks attached.",
      sub("stream", "TestC02_kvs", 240000, 1920000))
check("C03", "As C01 with mostly errors: plain, custom, muted, and errors returned by earlier calls, emitted from nine kinds of call "
      "sites; non-trivial: an earlier error is emitted again, several sinks attached.",
      sub("stream", "TestC03_errors", 192000, 1536000))
check("C04", "Trees of nested Run calls (through streams, new jobs and reused jobs) that return nil, errors, or panic with 13 kinds of "
      "values; non-trivial: some Run panics or fails.",
      sub("stream", "TestC04_run", 128000, 1024000))
check("C05", "As C01 with many completions, sleeps and slow sinks in virtual time, and trees of jobs that are run; non-trivial: a completion after a sleep.",
      sub("stream", "TestC05_duration", 240000, 1920000),
      sub("stream", "TestC05_run", 16000, 128000))

check("C06", "Histories of up to 200 operations (emissions of all kinds and repetition counts, sleeps up to and over interval boundaries, "
      "snapshots) on a polling sink in virtual time; non-trivial: at least three emissions.",
      sub("agg", "TestC06_exact", 48000, 384000))
check("C07", "As C06 with mostly sleeps and snapshots, intervals of 1 s to hours, retentions from below one interval to many; "
      "non-trivial: slept longer than an interval and took several snapshots.",
      sub("agg", "TestC07_window", 48000, 384000))
check("C08", "As C06, keeping every snapshot and comparing it with its deep copy at the end; clones and originals edited in turn; "
      "non-trivial: emissions after a snapshot, or edits after a clone.",
      sub("agg", "TestC08_snapshots", 40000, 320000),
      sub("agg", "TestC08_clone", 40000, 320000))
check("C09", "As C06 with many snapshots; every pair of snapshots of an interval is compared; non-trivial: two snapshots and emissions.",
      sub("agg", "TestC09_serial", 48000, 384000))
check("C10", "Sets of up to 8 aggregations with drawn emissions, merged in a drawn order and grouping, followed by edits of the result; "
      "non-trivial: at least two non-empty operands.",
      sub("agg", "TestC10_merge", 64000, 512000))
check("C11", "As C06 with wild names and non-finite gauges, read through ServeHTTP and (few cases) a real server; groups of up to seven "
      "processes (also in containers) that report their instance ids; non-trivial: at least one emission before a request; two processes.",
      sub("agg", "TestC11_http", 40000, 320000),
      sub("agg", "TestC11_server", 40, 300),
      sub("agg", "TestC11_identity", 48, 400))
check("C12", "Concurrent programs of 2 to 6 goroutines on one or two streams with up to five kinds of sinks (emissions of all kinds on the stream, shared and "
      "own jobs, with shared maps and errors, snapshots, HTTP requests, drains), and API requests to a healthd from up to eight goroutines at the very moment of polls, "
      "built with the race detector, on 2 to 8 processors; non-trivial: at least two emissions (healthd: an emission and concurrent requests).",
      sub("conc", "TestC12_mixed", 2500, 40000, race=True, nondet=True, procs=4, times=20),
      sub("healthdp", "TestC12_healthd", 1200, 20000, race=True, nondet=True, procs=4, times=20))

check("C13", "Sequences of up to 40 emissions with wild texts (also invalid UTF-8), many key/values, edge durations and gauges, local time zones and "
      "failing writers; non-trivial: at least two emissions, one with several key/values.",
      sub("sinkw", "TestC13_lines", 160000, 1280000))
check("C14", "As C13 with valid UTF-8; every write is decoded and compared; non-trivial: at least two emissions, one with several key/values.",
      sub("sinkw", "TestC14_json", 160000, 1280000))
check("C15", "Sequences of up to 60 emissions with wild names, edge values and drawn options, sent to a real UDP server (IPv4 or IPv6), some after a "
      "malformed address that has to be refused; non-trivial: at "
      "least three emissions.",
      sub("statsd", "TestC15_lines", 36000, 288000))
check("C16", "As C15 with up to 150 emissions, bursts of thousands, names up to 1500 bytes and lines aimed at the 1440 byte limit; non-trivial: "
      "more than one datagram's worth of lines, or a line that is too long.",
      sub("statsd", "TestC16_datagrams", 12000, 100000))
check("C17", "Schedules of emissions, Drain, bursts with Drain, steady trickles, one Stop and sleeps, in an exactly known order (the sanitisation function is "
      "used as a gate that holds the sink's loop); non-trivial: emissions and a Drain, burst, trickle or 200 ms wait.",
      sub("statsd", "TestC17_drain", 20000, 160000))
check("C18", "Histories of up to 40 operations over three streams with jobs and three Bugsnag sinks (shared between streams), errors of eight kinds, "
      "bursts of more than the queue holds, slow servers; non-trivial: a reportable error and a repeated or muted one.",
      sub("bugsnag", "TestC18_once", 24000, 192000))
check("C19", "As C18 with drawn configurations, key/values changed after emission and seven kinds of call sites; every field of every report is "
      "compared; non-trivial: a reported error and key/values.",
      sub("bugsnag", "TestC19_report", 48000, 384000))
check("C20", "Histories of up to 80 emissions and sleeps over many flush periods in virtual time, bursts of thousands; non-trivial: at "
      "least three emissions in at least two windows.",
      sub("librato", "TestC20_windows", 60000, 480000))
check("C21", "As C20 with wild names (also invalid UTF-8), users, keys and non-finite gauges; non-trivial: at least two emissions.",
      sub("librato", "TestC21_format", 60000, 480000))
check("C31", "As C18 and C20 with answers drawn per request: any status, refused, reset, never answered, body never ending, cut, huge or slow; "
      "non-trivial: at least two reports or posts and a bad answer.",
      sub("bugsnag", "TestC31_bugsnag", 12000, 96000),
      sub("bugsnag", "TestC31_notify", 12000, 96000),
      sub("librato", "TestC31_librato", 16000, 128000, times=3), level="fault_enumeration")
check("C22", "Call chains of up to 12 steps out of 27 kinds (functions, methods, wrappers, closures, generic and inlined functions, recursion, "
      "deferred calls in panics, callbacks from the standard library, other packages, symbols of all sorts of packages, and files with line directives), seven kinds of calls at "
      "the end, with drawn skips and maximum depths; built with and without inlining; non-trivial: at least one step.",
      sub("stackp", "TestC22_trace", 240000, 1920000),
      sub("stackp", "TestC22_trace", 120000, 960000, gcflags="all=-l", suffix="-noinline"),
      sub("stackp", "TestC22_frame", 40000, 320000, gcflags="all=-l", suffix="-noinline"))
check("C23", "Lives of up to 24 steps of a reporter with drawn option groups and intervals in virtual time (start, stop, report, sleep, allocate, "
      "collect, start goroutines, open files); reporters whose sink takes up to five intervals per report; non-trivial: at least one report.",
      sub("rtm", "TestC23_metrics", 12000, 96000),
      sub("rtm", "TestC23_slow", 6000, 60000))

check("C24", "Histories of up to 60 steps of a healthd in virtual time with up to five hosts (modelled, or real polling sinks), with intervals of 1 s to "
      "5 min: emissions on hosts, restarts, changing delays, faults and time zones, sleeps, and API requests at any time; non-trivial: several "
      "emissions (and, for modelled hosts, several hosts).",
      sub("healthdp", "TestC24_merge", 4000, 100000),
      sub("healthdp", "TestC24_sinks", 1500, 40000))
check("C25", "As C24 with wild names, no faults, and requests with all sort orders and limits; non-trivial: at least three emissions and a request.",
      sub("healthdp", "TestC25_views", 12000, 150000))
check("C26", "As C24 with mostly changes of the hosts' behaviour (statuses, bodies, refused, reset, never answered, cut, delayed); non-trivial: a "
      "change and a request.",
      sub("healthdp", "TestC26_hosts", 10000, 120000))
check("C27", "As C24 with hosts that answer with damaged data: cut, values deleted or replaced by null or others at every position, wrong interval "
      "lengths, nonsense; and with up to 305 hosts at once; non-trivial: a bad host and emissions, or more than 64 hosts.",
      sub("healthdp", "TestC27_bad", 4000, 100000),
      sub("healthdp", "TestC27_many", 1000, 20000),
      sub("healthdp", "TestC27_extreme", 3000, 60000), level="fault_enumeration")
check("C32", "As C26, with damaged data and emissions as well, and API requests; non-trivial: time passes and there are requests.",
      sub("healthdp", "TestC32_self", 5000, 100000))
check("C28", "As C24 with one or two hosts, intervals of 15 s to 3 h and histories of up to days; non-trivial: more than two intervals long, with "
      "emissions.",
      sub("healthdp", "TestC28_window", 700, 16000))
BINS = dict(VP_TOP="github.com/gocraft/health/cmd/healthtop", VP_HEALTHD="github.com/gocraft/health/cmd/healthd")
check("C29", "The real commands: up to 20 healthtops at once, on pseudo-terminals of drawn sizes (emulated) and with drawn flags, in front of healthds whose "
      "answers, faults and their times are drawn; up to five healthds at once with drawn environments and hosts, their API, own health, log and a "
      "healthtop compared with what the hosts serve; non-trivial: two or more different answers (healthd: hosts with jobs).",
      sub(".", "TestC29_top", 48, 1200, mod="harness/e2e", bins=BINS, race=True, hang=200, shrink=40),
      sub(".", "TestC29_daemon", 32, 800, mod="harness/e2e", bins=BINS, race=True, hang=200, shrink=40), limit=dict(quick=160, thorough=1500))
check("C33", "Cycles of up to six steps, repeated up to a hundred times with names never used before, of a stream with drawn sinks and failing endpoints, and of "
      "healthds whose hosts restart; the live heap and the goroutines are compared after cycles; non-trivial: emissions and a sink.",
      sub("mem", "TestC33_stream", 800, 16000),
      sub("mem", "TestC33_healthd", 80, 1600), limit=dict(quick=100))
check("C30", "Lives of each component (emissions up to full queues, sleeps, drains, endpoints and hosts that fail or hang, API requests) that end in a stop in any "
      "state, in virtual time, plus polling sinks with real servers on the loopback interface; non-trivial: something happened before the stop, or requests are made while it stops.",
      sub("stopx", "TestC30_bugsnag", 12000, 96000, times=20),
      sub("stopx", "TestC30_librato", 12000, 96000, times=20),
      sub("stopx", "TestC30_polling", 12000, 96000, times=5),
      sub("stopx", "TestC30_reporter", 12000, 96000, times=3),
      sub("stopx", "TestC30_server", 300, 3000),
      sub(".", "TestC30_sockets", 24, 600, mod="harness/e2e", race=True, hang=120, shrink=40),
      sub("statsd", "TestC30_statsd", 12000, 96000),
      sub("healthdp", "TestC30_healthd", 8000, 64000), limit=dict(quick=120))
