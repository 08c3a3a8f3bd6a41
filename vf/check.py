#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree."""
import json, os, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proof, replay, props
VERIF = proof.VERIF
EVID = os.environ.get("VF_EVIDENCE", VERIF + "/evidence")

def known(prop):
    out = []
    for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
        m = re.match(r"finding: property=(\S+) key=(.*?) case=(.*?) \| (.*)$", l.strip())
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def c04_failures(r):
    """peek and parse of one parser, one of them proved and the other refuted"""
    out = []
    for k, f in r.fns.items():
        if f["status"] != "failed": continue
        if k.endswith("Parse__default__peek"): out.append((k, f["diags"][0])); continue
        m = re.match(r"(.*Parse<.*> for .*>)::(peek|parse)$", k)
        if not m: continue
        o = r.fns.get(m.group(1) + ("::parse" if m.group(2) == "peek" else "::peek"))
        if not o or o["status"] != "proved": continue
        kinds = [props.kind(d) for d in f["diags"]]
        if not any(x in ("verdict", "rest", "other", "view", "result") for x in kinds): continue
        # the one that holds must not rest on the one that fails
        if re.search(r"\b(Self|Space|WhiteSpace|LineEnding|Tag|OneOf|AnyOf1?|WhileNot1)(::<[^>]*>)?::%s\b" % m.group(2), o.get("text", "")): continue
        out.append((k, f["diags"][0]))
    return out

# what parse and peek are both made of
BOTH = re.compile(r"gen::(<Builder<'a>>::(new|create_ignore|ignore|ignore_impl|vec_call_tokens|where_tokens|add_where\w*)|<FieldType for|<TryFrom|<EnumVariant\w+>::|<\w+>::new$|parse_or$|derive_parse$)")
def c15_failures(r):
    """generator functions that make one of parse and peek as the definition spells it and the other not"""
    out = []
    for k, f in r.fns.items():
        if f["status"] != "failed" or not k.startswith("gen::") or BOTH.match(k): continue
        ks = [props.kind(d) for d in f["diags"]]
        if ("program" in ks) != ("peek_program" in ks) and not ("peek_program" in ks and "error" in ks): out.append((k, next(d for d in f["diags"] if props.kind(d) in ("program", "peek_program"))))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True); os.makedirs(proof.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=proof.BUILD)
    try: code = decide(prop, tier, seed, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def guard(f, *a, **k):
    try: return f(*a, **k)
    except Exception as e: return e

def decide(prop, tier, seed, t0, work):
    if prop in props.DERIVE:
        import derive
    engines = []
    def do_core(mode, probe=None):
        vx = VX.result()
        return proof.run(vx, work, mode=mode, probe=probe, tag="core_%s%s" % (mode, "_probe" if probe else ""))
    def do_replay():
        b, why = replay.build(prop, work)
        if b is None:
            o = replay.Outcome(); o.note = why; return o
        return replay.run(b, prop, tier, seed, work, timeout=500 if tier == "quick" else 780)
    with ThreadPoolExecutor(6) as ex:
        VX = ex.submit(proof.build_vx)
        fa = ex.submit(guard, do_core, "A")
        fb = ex.submit(guard, do_core, "B") if prop == "C16" else None
        fp = ex.submit(guard, do_core, "A", 1) if tier == "thorough" else None
        fr = ex.submit(guard, do_replay) if prop in replay.FEATURES else None
        fd = ex.submit(guard, derive.run, prop, tier, seed, work, VX) if prop in props.DERIVE else None
        ra, rb, rp, ro, rd = [f.result() if f else None for f in (fa, fb, fp, fr, fd)]
    notes = []
    runs = []
    for n, r in (("A", ra), ("B", rb)):
        if isinstance(r, Exception): notes.append("proof run %s: %s" % (n, r))
        elif r is not None: runs.append((n, r)); notes += ["proof run %s: %s" % (n, r.note)] if r.note else []
    if isinstance(ro, Exception): notes.append("replay: %s" % ro); ro = None
    if ro is not None and ro.note: notes.append("replay: " + ro.note)
    if isinstance(rd, Exception): notes.append("derive: %s" % rd); rd = None
    # ---- failing inputs
    fails = list(ro.fails) if ro is not None else []
    if rd is not None: fails += rd.fails; notes += rd.notes; runs += rd.runs
    kn = known(prop); new = []
    for k, d in fails:
        hit = [x for x in kn if x[0] == k and x[1] in d]
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        else: new.append((k, d))
    # ---- refuted obligations
    refuted = []; unproved = []; own = {}
    for mode, r in runs:
        keys = rd.own_keys(prop, list(r.fns)) if rd is not None and mode.startswith("derive") else props.own_keys(prop, list(r.fns))
        for k in keys: own["%s [%s]" % (k, mode)] = r.fns[k]["status"] + ("" if not r.fns[k]["why"] else ": " + r.fns[k]["why"][:160])
        for k, f in r.fns.items():
            if f["status"] == "failed":
                ks = [props.kind(d) for d in f["diags"]]
                for d in f["diags"]:
                    # what it makes is not what was asked for: that it makes something of the same definitions then follows no more
                    if prop == "C17" and k.startswith("gen::") and props.kind(d) == "verdict" and "program" in ks: continue
                    w = (rd.owns(prop, k, d) if rd is not None and mode.startswith("derive") else props.owns(prop, k, d)) if k in keys else None
                    if w: refuted.append((mode, k, f, d))
        if prop == "C04" and not mode.startswith("derive"):
            for k, d in c04_failures(r): refuted.append((mode, k, r.fns[k], d))
        if prop == "C15" and mode == "attr":
            for k, d in c15_failures(r): refuted.append((mode, k, r.fns[k], d))
        for n, t in r.thms.items():
            if prop in t["props"]:
                own["theorem %s [%s]" % (n, mode)] = t["status"]
                if t["status"] == "failed": refuted.append((mode, n, dict(file="the theorem", line=0), t["diags"][0]))
    if rd is not None: refuted += [x for x in rd.extra_refuted(prop) if x not in refuted]
    proved = sum(1 for s in own.values() if s == "proved"); 
    probe = None
    if rp is not None and not isinstance(rp, Exception):
        probe = dict(contracted=sum(1 for f in rp.fns.values() if f["status"] != "stub"), vacuous=[k for k, f in rp.fns.items() if f["status"] == "proved"])
    # ---- evidence
    tb = sorted(set(sum([r.trusted for _, r in runs], [])))
    cov = dict(
        obligations=sum(r.verified + r.errors for _, r in runs), discharged=sum(r.verified for _, r in runs),
        checker_cmd=(runs[0][1].cmd if runs else "verus") + " (files extracted from the sources on this run)",
        trusted_base=tb,
        back_end="Verus %s, Z3; one query per function, lemma and loop (-V spinoff-all)" % (runs[0][1].version if runs else ""),
        solver_ms=sum(r.smt_ms for _, r in runs),
        functions_under_contract=own, functions_of_this_property_proved=proved,
        not_proved=[dict(function=k, mode=m, status=f["status"], why=f["why"], stand_in="bounded replay only") for m, r in runs for k, f in r.fns.items() if f["status"] != "proved"],
        contract_clauses=sum(r.clauses for _, r in runs),
        extraction_problems=sum([r.problems for _, r in runs], []), not_under_contract=sum([r.uncovered for _, r in runs], []),
        lemma_failures=sum([r.extra for _, r in runs], []),
        notes=notes)
    if ro is not None:
        cov.update(evaluations=ro.cases, distinct_nontrivial=ro.nontrivial, samples=ro.samples[:8],
                   rule="BOUNDED stand-in and counterexample search, not counted as proved: the real crate against an independent reference; a case is one parser or script on one input in one surrounding, distinct by construction, non-trivial when the input is not empty or the parser succeeds (see /verif/replay/src)", replay_wall_s=round(ro.wall, 2))
    if rd is not None: rd.coverage(cov)
    if probe is not None: cov["vacuity_probe"] = probe
    viol = len(new) + (1 if refuted and not new else 0)
    level = "translation_validation" if prop in ("C13", "C14", "C15") else "proof"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.ASSUMPTIONS + props.EXTRA_ASSUMPTIONS.get(prop, []), wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open("%s/%s.json" % (EVID, prop), "w"), indent=1)
    path = "%s/%s.replay.txt" % (EVID, prop)
    if new:
        with open(path, "w") as f:
            f.write("property %s: failing inputs found on the real code\n" % prop)
            for k, d in new: f.write("\n%s\n  %s\n" % (k, d))
            if refuted:
                f.write("\nfailed obligations:\n")
                for m, k, fn, d in refuted: f.write("\n%s (%s:%s), mode %s\n%s\n" % (k, fn["file"], fn["line"], m, d["text"]))
            f.write("\nto run again: python3 /verif/vf/check.py %s %s   (VERIF_SEED=%d)\n" % (prop, tier, seed))
        print("%s: %s" % new[0])
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    if refuted:
        with open(path, "w") as f:
            f.write("property %s: obligations the verifier refutes; no failing input was found within the bounds of the replay\n" % prop)
            for m, k, fn, d in refuted: f.write("\n%s (%s:%s), mode %s\n%s\n" % (k, fn["file"], fn["line"], m, d["text"]))
        print("%s: %s" % (refuted[0][1], refuted[0][3]["message"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)); return 1
    if os.path.exists(path): os.remove(path)
    have_replay = ro is not None and (ro.done or ro.note is None) or rd is not None and rd.ro is not None and rd.ro.done
    if not have_replay and not any(r.verified for _, r in runs):
        print("no answer: " + "; ".join(notes)); return 2
    print("%s: held; %d of %d obligations discharged, %d of %d functions and theorems of this property proved%s%s" % (prop, cov["discharged"], cov["obligations"], proved, len(own), ", %d cases replayed" % cov["evaluations"] if cov.get("evaluations") else "", "; " + "; ".join(notes) if notes else ""))
    return 0

if __name__ == "__main__":
    main()
