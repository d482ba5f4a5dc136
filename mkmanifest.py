#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json
NA = {
 "C03": "A pure function from a set of tables to bytes: no schedule, clock, fault or history influences it (destination faults are C18, reproducibility under map order is C01).",
 "C04": "Charstring compilation is a pure function of the glyph program; nothing is scheduled, timed, shared or faulted.",
 "C05": "The charstring interpreter is a pure function of its byte string (its totality on corrupted stored bytes is part of C02).",
 "C06": "Single application of lookups against the OpenType semantics is a pure function of lookup list and glyph sequence; the history and fault aspects of the engine are C07.",
 "C08": "Encoding/decoding of layout tables is a pure function (map-order reproducibility and storage faults are exercised under C01, C02 and C18).",
 "C09": "Character map encoding and lookup is a pure function of map and code point.",
 "C10": "Subsetting is a pure function of font and glyph list (its behaviour under concurrency is C16).",
 "C11": "glyf/loca encoding is a pure function (stored-byte corruption of it is C02).",
 "C12": "Metric tables are pure functions of field values.",
 "C13": "CFF structure encoding is a pure function of the font value (faults on its writer and reader are C18).",
 "C14": "String encodings are pure functions of their input.",
}
CHECKS = {}
def claim(pid, level, technique, note):
    CHECKS[pid] = dict(property=pid, quick_cmd=f"bash check.sh {pid} quick", thorough_cmd=f"bash check.sh {pid} thorough",
        evidence_file=f"evidence/{pid}.json", technique="deterministic simulation: "+technique, level=level, level_note=note)
exec(open("claims.py").read())
json.dump(dict(version=1, setup_cmd="bash check.sh --setup",
  hooks=dict(guard="none (build-time overlay generated by sim/internal/overlay; nothing guarded is committed in /repo)",
             enable="go build -overlay with instrumented copies of /repo's non-test files and a patched Go runtime", source_commits=[]),
  checks=[CHECKS[k] for k in sorted(CHECKS)],
  not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in CHECKS]), open("MANIFEST.json","w"), indent=1)
open("MANIFEST.json","a").write("\n")
