#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
THM = {"C01": ["thm_cursor_history", "thm_cursor_gone"], "C02": ["thm_buffer_history", "thm_into_buf"], "C03": ["thm_cursor_history", "thm_commit"], "C04": ["thm_agree_lexemes", "thm_agree_composite"],
       "C05": ["text::tag_exact", "bytes::tag_exact"], "C06": ["text::run_longest", "bytes::run_longest"], "C08": ["thm_repeat", "thm_trace"], "C09": ["thm_trace"], "C16": ["thm_progress"]}
DERIVE = {}
NA = {}
exec(open(V + "/tools/manifest_extra.py").read()) if os.path.exists(V + "/tools/manifest_extra.py") else None
checks = []; na = []
for p in props:
    i = p["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    c = dict(property=i, quick_cmd="python3 vf/check.py %s quick" % i, thorough_cmd="python3 vf/check.py %s thorough" % i,
             technique="contract-based deductive verification with Verus of the functions extracted from /repo on every run; bounded replay only to find the failing input",
             level="proof", level_note="Contracts on the real functions, every obligation discharged by Verus/Z3 for all inputs and component parsers; assumes the contracts of std and eyre items in verus/prelude.vrs and the mechanical extraction (DESIGN.md). The replay against the real crate is bounded and not counted as proved.")
    if i in THM: c["theorems"] = THM[i]
    c.update(DERIVE.get(i, {}))
    checks.append(c)
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: /repo is verified and run as it is. The fix: commits in /repo repair genuine defects, see KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
