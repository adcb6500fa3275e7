#!/usr/bin/env python3
"""Writes MANIFEST.json from props_cfg.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_cfg import CFG
TECH = {
    "h_report": "stateful property-based testing of report aggregator histories against a reference cache and an amount ledger",
    "h_client": "stateful property-based testing of whole-client histories (scripted transports, virtual clock, timer ticks, destruction) against composed reference models",
    "h_opmerge": "property-based testing of operation merging against an independent merge",
    "h_check": "stateful property-based testing of check cache histories against a candidate-set reference model",
    "h_quota": "stateful property-based testing of quota cache histories against a candidate-set reference model",
    "h_sig": "property-based and metamorphic testing of request identities over mutated request pairs, with an independent digest",
    "h_dist": "property-based testing of distributions against a direct recomputation from the samples",
    "h_money": "property-based testing of money arithmetic against exact 128-bit arithmetic",
    "h_md5": "property-based differential testing of MD5 chunkings against OpenSSL",
    "h_lru": "stateful property-based testing of cache histories against a reference ordered map",
    "h_threads": "property-based testing of generated multi-threaded client programs with generated schedules (a deterministic scheduler preempting at basic blocks, locks and atomics; also the system scheduler), with conservation oracles under AddressSanitizer and ThreadSanitizer",
    "h_curl": "property-based testing of the sample transport over a generated fake libcurl",
}
NOTE = {
    "h_threads": "Samples programs and schedules (generated, replayable preemptions; also the system scheduler): not exhaustive. A data race is reported from any schedule in which the two accesses are unordered. Trusts the sanitizers, the scheduler (harness/dsched.h) and the harness's ledger.",
    "h_curl": "Sampled outcomes; libcurl is replaced by a recording fake, so only the transport's own code is judged.",
}
DEF = ("Random histories/inputs up to the generator's size bounds, shrunk on failure; sampled, not exhaustive. Trusts the harness's "
       "reference model, the virtual clock and the sanitizers; generated protobuf code is not instrumented.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CFG:
        na.append({"property": i, "reason": "its harness is not built yet"})
        continue
    st = CFG[i] if isinstance(CFG[i], list) else [CFG[i]]
    hs = []
    for s in st:
        if s["harness"] not in hs:
            hs.append(s["harness"])
    checks.append({
        "property": i, "quick_cmd": "python3 run.py check %s" % i,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
        "technique": "; ".join(TECH[h] for h in hs), "level": "exploration",
        "level_note": " ".join(NOTE.get(h, DEF) for h in hs[:1]) +
        (" Thorough tier adds coverage-guided fuzzing (libFuzzer) of the same decoder." if any(s.get("fuzz") for s in st) else "")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: time, transports and timers are injected through public interfaces and symbol interposition."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
