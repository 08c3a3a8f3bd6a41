#!/usr/bin/env python3
"""newseed.py SPEC.py: makes seeded/<id>/ from a spec: ID, PROP, NEEDS, BREAKS, DEMO, EDITS=[(file, old, new)]"""
import sys, os, json, subprocess, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    w = "/tmp/newseed"; subprocess.run(["rm", "-rf", w]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b, *nth in s["edits"]:
        t = open(w + "/" + f).read(); n = nth[0] if nth else 0
        assert t.count(a) == 1 or nth and t.count(a) > n, (s["id"], f, t.count(a), a)
        i = -1
        for _ in range(n + 1): i = t.index(a, i + 1)
        open(w + "/" + f, "w").write(t[:i] + b + t[i + len(a):])
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout)
    subprocess.run(["rm", "-rf", w])
    open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
    shutil.copy("/verif/tools/demo.sh.in", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
