#!/usr/bin/env python3
"""Writes MANIFEST.json (run with python3-vt to validate it as well)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Exploration: an alarm is a real execution of the code in /repo; silence covers what was executed, which the evidence file counts. "
REF = "Trusts the independent Python reference in vt/ref.py and Python's Unicode data (15.0; code points assigned later are left out)."
T = {
 "C01": ("ASan+UBSan+LSan and memcheck under hostile workloads", COMMON + "Trusts the sanitizers, whose faults are planted and must be reported before every run. Cost limits: 60 s per call, texts up to 300000 characters."),
 "C02": ("ASan+UBSan+LSan and memcheck over damaged configurations; exception monitor", COMMON + "Trusts the sanitizers (canaries planted); the exception type is compared for absent sections, unparsable documents and missing files."),
 "C03": ("differential monitor over histories, instances, processes and locales", COMMON + "The oracle is equality of complete recorded results; only the locales installed here are met."),
 "C04": ("ThreadSanitizer and sequential-equality monitor under injected yields", COMMON + "Interleavings are those the scheduler and injected yields produce (counted); TSan's race canary must be reported first."),
 "C05": ("invariant monitor on every encoding and part", COMMON + REF),
 "C06": ("offset oracle tracing every character through the pipeline", COMMON + REF + " Where a step merges or expands characters any span inside the cluster passes."),
 "C07": ("reference matcher and gap-by-gap differential monitor", COMMON + REF),
 "C08": ("online id-allocation checker over histories of additions", COMMON + REF),
 "C09": ("output monitor against the Unicode character database", COMMON + REF),
 "C10": ("output monitor against a reference on Unicode data", COMMON + REF),
 "C11": ("output monitor against a reference on Unicode data", COMMON + REF),
 "C12": ("output monitor against a reference on Unicode data", COMMON + REF),
 "C13": ("conservation and reference monitor over recorded pieces", COMMON + REF + " Patterns are those whose meaning is the same in ICU and in the reference's engine."),
 "C14": ("byte-conservation monitor, all bytes and code points", COMMON + REF),
 "C15": ("reference segmenter over random vocabularies", COMMON + REF),
 "C16": ("reference merge machine over random merge lists and histories", COMMON + REF),
 "C17": ("window oracle over all small sizes and random ones", COMMON + REF),
 "C18": ("padding oracle over all small sizes and random ones", COMMON + REF),
 "C19": ("framing oracle over random templates and truncations", COMMON + REF + " Where byte-level trimming cannot tell an inserted space from one of the text, both offsets pass."),
 "C20": ("reference decoders over random token lists", COMMON + REF),
 "C21": ("metamorphic monitor: re-written documents of one value", COMMON + REF + " One open finding is listed in known-findings.txt."),
 "C22": ("end-to-end reference pipeline and stage-composition monitor", COMMON + REF),
 "C23": ("round-trip monitor on bytes", COMMON + REF),
 "C24": ("conversion oracle, all scalar values and boundary byte strings", COMMON + "Trusts Python's UTF-8 codec."),
 "C25": ("JVM with -Xcheck:jni and ASan; equality with the native driver", COMMON + "Trusts the JVM of this machine in place of Android's."),
 "C26": ("allocation-failure injection at every point, ASan+LSan, equality monitor", "For each case every allocation of the call is failed in turn (up to the counted limit). Failures are injected into throwing operator new only: simdjson's nothrow allocations do not fail."),
}
man = {"version": 1, "setup_cmd": "python3 vt/build.py asan alloc tsan plain",
       "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "fault_enumeration" if p == "C26" else "exploration", "level_note": n}
                  for p, (t, n) in sorted(T.items())],
       "not_applicable": [],
       "notes": "No hooks in /repo: everything is observed through the public API, sanitizers and a replaced operator new. See DESIGN.md."}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert ids == sorted(T), set(ids) ^ set(T)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
