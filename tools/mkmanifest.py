#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when its check module exists."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "online oracle: independent line matcher enumerating every reading of a line, over generated lines and near misses",
    "P02": "reference-model monitor: conservation, order and provenance of uniquely tagged records",
    "P03": "reference-model monitor: generated forest vs extracted tree",
    "P04": "executable model of path semantics over generated records",
    "P05": "plain predicates evaluated over generated records, compared with observed results",
    "P06": "record model of defaults/set plus object identity walk over results",
    "P07": "generated records with start/end/line/join/table/column forms vs results",
    "P08": "independent reference functions vs observed transformations, alone and in chains",
    "P09": "reference record transformers vs observed group functions",
    "P10": "dictionary model of lookups over all sources; table snapshots before/after",
    "P11": "two-scope store model over recorded input sequences",
    "P12": "call-log monitor: recorded macro/function call history checked offline",
    "P13": "routing monitor: tagged inputs and groups, files in scratch folders",
    "P14": "recorded API histories checked against a sequential store model",
    "P15": "alternated parser histories vs isolated fresh-process histories",
    "P16": "multi-process stress with injected worker delays; multiset and process-table monitors",
    "P17": "tagged templates and inputs; agreement of result structures",
    "P18": "independent decoders over rendered output; deep snapshots before/after",
    "P19": "delivery log monitor: exactly-once and order over returners, files, stdout, datagrams",
    "P20": "verdicts compared with direct evaluation over raw results",
    "P21": "metamorphic monitor: extended vs inlined template",
    "P22": "hostile text stress: exceptions, step budget, leaf provenance, determinism, noise invariance",
    "P23": "fault injection on the cache file (every state, truncations, concurrent starts) with result/function monitors",
    "P24": "captured stdout of the command line tool decoded and compared with the class interface",
    "P25": "deep snapshots and digests of caller objects and files around recorded API calls",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        lvl = "fault_enumeration" if p == "P23" else "exploration"
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                       "technique": TECH[p], "level": lvl,
                       "level_note": "Held on the executions produced (counts in evidence/%s.json), not proved; trusts the oracle in checks/%s.py "
                                     "and the generators, and says nothing about inputs the workload never drives." % (p, p.lower())})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the public interface, injected functions/macros, files, output streams, sockets and processes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
