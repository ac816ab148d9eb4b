#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS

TECH = {
    "C01": "stateful property-based testing: generated emission programs, differential against a reference model over recording sinks",
    "C02": "stateful property-based testing against a model of key/value merging and ownership",
    "C03": "stateful property-based testing of error wrapping and re-emission against a model",
    "C04": "property-based testing of generated trees of Run calls (returns, errors, panics) against a model",
    "C05": "stateful property-based testing in virtual time against a model of durations",
    "C06": "model-based property testing: generated histories against an independent fold over the emissions",
    "C07": "model-based property testing of interval windows in virtual time",
    "C08": "property-based testing: deep copies of every snapshot compared after further generated activity",
    "C09": "property-based testing: serial numbers against contents over generated histories",
    "C10": "metamorphic property-based testing: merges in generated groupings and orders against aggregation of the union",
    "C11": "round-trip property-based testing through HTTP against the model",
    "C12": "property-based testing of generated concurrent programs, with the race detector, conservation and order oracles",
    "C13": "property-based testing: output lines against an independent renderer and parser",
    "C14": "round-trip property-based testing of JSON lines",
    "C15": "model-based property testing: received UDP lines against an independent renderer",
    "C16": "property-based testing of datagram packing: concatenation and size invariants on received datagrams",
    "C17": "schedule generation with a gate inside the sink's loop; delivered lines and returning calls against a model",
    "C18": "stateful property-based testing: reports received against a model of emitted errors",
    "C19": "property-based testing: decoded reports against an independent rendering of the error, stack and configuration",
    "C20": "model-based property testing of flush windows in virtual time",
    "C21": "property-based testing: decoded posts against an independent rendering",
    "C22": "property-based testing: generated call chains whose frames are known by construction",
    "C23": "stateful property-based testing in virtual time; values bracketed by independent readings",
    "C24": "model-based property testing of the whole daemon in virtual time with generated hosts, delays and faults",
    "C25": "property-based testing: derived views recomputed from the served intervals",
    "C26": "model-based property testing of host states under generated faults",
    "C27": "structured fuzzing of host responses and fault injection, with a model of the other hosts' data",
    "C28": "model-based property testing of long generated histories in virtual time",
    "C29": "property-based testing with fault injection: the real commands' screens (emulated terminal), APIs and logs against an independent rendering of the served data",
    "C30": "property-based testing of generated histories that end in a stop, in virtual time, with deadlock and goroutine-leak detection",
    "C32": "model-based property testing: healthd's own metrics against the polls and API requests that there were",
    "C33": "property-based testing: the live heap and goroutines compared over repeated generated cycles with fresh data, in virtual time",
    "C31": "fault-injecting property-based testing: sequences of endpoint faults against a model of deliveries",
}
NOTE = ("Generated-input search against an explicit oracle, executed on the real code built from /repo's working tree; no proof: what was "
        "explored is in the evidence file. Trusts the Go toolchain, testing/synctest's virtual time, rapid and the model in /verif/harness. %s")
MORE = {
    "C12": "Interleavings are those the scheduler (8 cores, race build) produces, not all of them.",
    "C15": "Real UDP over loopback; cases whose datagrams the kernel dropped are inconclusive, not passed.",
    "C16": "Real UDP over loopback; cases whose datagrams the kernel dropped are inconclusive, not passed.",
    "C17": "Real UDP over loopback; cases whose datagrams the kernel dropped are inconclusive, not passed.",
    "C18": "http.DefaultTransport is replaced by a recording one.",
    "C19": "http.DefaultTransport is replaced by a recording one.",
    "C20": "http.DefaultTransport is replaced by a recording one.",
    "C21": "http.DefaultTransport is replaced by a recording one.",
    "C31": "Faults are injected below http.Client, by a transport; every kind of fault in the list is exercised in each run.",
}
HD = "gocraft/web and braintree/manners are not available offline: healthd is built with stand-ins for the part of their API that it uses; hosts are answered by a transport."
for k in ("C24", "C25", "C26", "C27", "C28", "C32"):
    MORE[k] = HD
MORE["C30"] = "Real HTTP servers on loopback (polling sink) and UDP (StatsD); otherwise transports and stand-ins as in the other checks."
MORE["C29"] = "The real commands (race build) on loopback and pseudo-terminals, in real time; with the real braintree/manners, but a stand-in for gocraft/web."
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i not in CHECKS:
        NA.setdefault(i, "its check is still being built")
        continue
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, evidence_file="evidence/%s.json" % i,
                       technique=TECH[i], level=CHECKS[i]["level"], level_note=(NOTE % MORE.get(i, "")).strip()))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo: all commits there are fix: commits. Repaired defects are listed in known-findings.txt, the method in DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks; not applicable:", list(NA))
