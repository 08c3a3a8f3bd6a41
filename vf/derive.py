"""The derive: its output for the listed shapes is put under contract (vf/dspec.py) and replayed (derive/replay)."""
import json, os, re, shutil, subprocess, time
import proof, props, shapes, dspec, replay
from proof import VERIF, REPO, BUILD

def expand(work, shps):
    """the derive's output for the shapes, as source text: the real nommy-derive runs inside rustc"""
    d = work + "/derive-expand"
    if os.path.isdir(d): shutil.rmtree(d)
    for x in ("stub-std", "stub-nommy", "expand"): shutil.copytree(VERIF + "/derive/" + x, d + "/" + x, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    c = d + "/stub-nommy/Cargo.toml"; t = open(c).read().replace("/repo/nommy-derive", REPO + "/nommy-derive"); open(c, "w").write(t)
    lock = REPO + "/Cargo.lock"
    shutil.copy(lock if os.path.exists(lock) else "/opt/vp/Cargo.lock", d + "/expand/Cargo.lock")
    with open(d + "/expand/src/lib.rs", "a") as f:
        for s in shps: f.write(shapes.source(s) + "\n")
    p = subprocess.run(["timeout", "300", "cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=d + "/expand",
                       env=replay.nightly_env(os.path.join(BUILD, "derive-expand-target")), capture_output=True, text=True)
    out = p.stdout
    if "impl" not in out: raise RuntimeError("the derive could not be expanded: " + "\n".join(l for l in p.stderr.splitlines() if l.startswith("error"))[:800])
    # only the impls: the definitions come with them as items
    path = work + "/derive-expanded.rs"
    i = out.find("#[nommy"); j = out.find("pub struct "); j2 = out.find("pub enum ")
    i = min(x for x in (i, j, j2) if x >= 0)
    open(path, "w").write(out[i:])
    return path, p.stderr

def inherent(text):
    """enum -> the functions of its inherent impls, in order: (name, returns bool)"""
    out = {}
    lines = text.split("\n"); k = 0
    while k < len(lines):
        if re.match(r"impl\b", lines[k]):
            e = next((j for j in range(k, len(lines)) if lines[j] == "}"), len(lines) - 1)
            blk = "\n".join(lines[k:e + 1]); hd = blk[:blk.index("{")] if "{" in blk else ""
            m = re.match(r"impl\s*(?:<[^>]*>)?\s*(\w+)\s*(?:<[^>]*>)?\s*(where\b.*)?$", hd.strip(), re.S)
            if m and " for " not in hd.split("where")[0]:
                for f in re.finditer(r"^    (?:pub(?:\([^)]*\))? )?fn (\w+)(.*?)\{", blk, re.M | re.S):
                    out.setdefault(m.group(1), []).append((f.group(1), re.search(r"->\s*bool", f.group(2)) is not None))
            k = e
        k += 1
    return out

def methods(text, shps):
    """enum -> one (parse, peek) pair of function names per variant; enums whose helpers are organised otherwise are left out"""
    inh = inherent(text); out = {}; left = []
    for s in shps:
        if s.kind != "enum": continue
        fs = inh.get(s.name, []); pa = [n for n, b in fs if not b]; pk = [n for n, b in fs if b]
        if len(pa) == len(pk) == len(s.variants): out[s.name] = list(zip(pa, pk))
        else: left.append(s.name)
    return out, left

# ------------------------------------------------------------------------------------------------ which shapes decide what
def closure(shps, among):
    import doracle
    by = {s.name: s for s in among}; need = []; todo = list(shps)
    while todo:
        s = todo.pop()
        if s in need: continue
        need.append(s); todo += [by[w] for w in doracle.uses(s) if w in by and w != s.name]
    return [s for s in among if s in need]
def base(s): return not s.group or s.name.endswith("_one")
def proof_shapes(prop):
    al = [s for s in shapes.SHAPES if s.prove]
    if prop == "C17": return [s for s in al if s.group]
    want = [s for s in al if base(s) and (prop not in ("C13", "C14") or (s.kind == "enum") == (prop == "C14"))]
    return closure(want, al)
def replay_shapes(prop):
    al = shapes.SHAPES + (shapes.ZSHAPES if prop == "C16" else [])
    if prop == "C17": return [s for s in al if s.group or s.name.startswith("Ig")]
    want = [s for s in al if base(s) and (prop not in ("C13", "C14") or (s.kind == "enum") == (prop == "C14"))]
    return closure(want, al)

# ------------------------------------------------------------------------------------------------ replay
def lockfile(d):
    lock = REPO + "/Cargo.lock"
    shutil.copy(lock if os.path.exists(lock) else "/opt/vp/Cargo.lock", d + "/Cargo.lock")
def cargo(d, target, *args):
    """runs cargo; the errors as (lines in src/shapes.rs or src/items.rs, message)"""
    p = subprocess.run(["timeout", "500", "cargo"] + list(args) + ["--offline", "--message-format=json"], cwd=d, env=replay.nightly_env(os.path.join(BUILD, target)), capture_output=True, text=True)
    errs = []
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        m = m.get("message") if m.get("reason") == "compiler-message" else None
        if not m or m.get("level") != "error" or m["message"].startswith("aborting due"): continue
        ls = []
        def walk(sp):
            if re.search(r"src/(shapes|items)\.rs$", sp["file_name"]): ls.append(sp["line_start"])
            if sp.get("expansion"): walk(sp["expansion"]["span"])
        for sp in sorted(m["spans"], key=lambda s: not s["is_primary"]): walk(sp)
        errs.append((ls, m["message"]))
    return p.returncode, errs, p.stderr
def crate(work, name):
    d = work + "/" + name
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(VERIF + "/derive/replay", d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    c = open(d + "/Cargo.toml").read().replace("/repo/nommy", REPO + "/nommy"); open(d + "/Cargo.toml", "w").write(c)
    lockfile(d)
    return d
def build(work, shps):
    """(binary, shapes built, {shape: why it does not compile}, note)"""
    import doracle
    d = crate(work, "dreplay")
    for f in ("util", "obs"): shutil.copy(VERIF + "/replay/src/%s.rs" % f, d + "/src/")
    bad = {}; cur = list(shps)
    for _ in range(5):
        src, lines = doracle.source(cur)
        open(d + "/src/shapes.rs", "w").write(src)
        rc, errs, err = cargo(d, "dreplay-target", "build")
        if rc == 0: return os.path.join(BUILD, "dreplay-target/debug/dreplay"), cur, bad, None
        new = {}
        for ls, m in errs:
            for n, rs in lines.items():
                if ls and any(a <= ls[0] <= b for a, b in rs): new.setdefault(n, m)
        if not new: return None, [], bad, "the derive replay does not build against the crate: " + ("; ".join(m for _, m in errs[:4]) or err[-300:])
        bad.update(new)
        # and whatever is made of them
        gone = set(new)
        while True:
            more = {s.name for s in cur if s.name not in gone and doracle.uses(s) & gone}
            if not more: break
            gone |= more
        cur = [s for s in cur if s.name not in gone]
    return None, [], bad, "the derive replay still does not build with the offending definitions left out"

def items_check(work):
    """C17: items that must be rejected, and some that must not; [(label, item)] accepted, [(label, message)] refused, number of items"""
    d = crate(work, "ditems")
    open(d + "/src/main.rs", "w").write("#![allow(dead_code, non_camel_case_types, unused)]\nmod mocks;\nmod items;\nfn main() {}\n")
    m = open(d + "/src/mocks.rs").read(); open(d + "/src/mocks.rs", "w").write(m)
    def run(its):
        o = ["use crate::mocks::*;"]; rng = []
        for i, (lab, body) in enumerate(its):
            t = shapes.bad(body % ("Item%d" % i)); a = "\n".join(o).count("\n") + 2; o.append(t); rng.append((a, a + t.count("\n")))
        open(d + "/src/items.rs", "w").write("\n".join(o) + "\n")
        rc, errs, err = cargo(d, "dreplay-target", "check")
        hit = [[m for ls, m in errs if any(a <= x <= b for x in ls)] for a, b in rng]
        return rc, hit, errs, err
    rc, hit, errs, err = run(shapes.GOOD)
    refused = [(shapes.GOOD[i][0], h[0]) for i, h in enumerate(hit) if h]
    if rc and not refused: return [], [], 0, "items that must be accepted cannot be compiled: " + ("; ".join(m for _, m in errs[:3]) or err[-300:])
    its = list(shapes.BAD); acc = []
    # an item without an error of its own may only have been reached by none: the rest is compiled again by itself
    for _ in range(3):
        rc, hit, errs, err = run(its)
        left = [its[i] for i, h in enumerate(hit) if not h]
        if rc == 0: acc = left; break
        if len(left) == len(its): return [], refused, 0, "rejected items: errors not placed: " + "; ".join(m for _, m in errs[:3])
        its = left
        if not its: break
    else: acc = []
    return acc, refused, len(shapes.BAD) + len(shapes.GOOD), None

# ------------------------------------------------------------------------------------------------ proof
def spec_files(work, text, shps):
    m, left = methods(text, shps)
    ok = [s for s in shps if s.kind != "enum" or s.name in m]
    import doracle
    gone = {s.name for s in shps} - {s.name for s in ok}
    while True:
        more = {s.name for s in ok if doracle.uses(s) & gone}
        if not more: break
        gone |= more; ok = [s for s in ok if s.name not in gone]
    open(work + "/dshapes.vrs", "w").write(dspec.write(ok, m))
    t = open(VERIF + "/verus/root_all.vrs").read()
    i = t.index("fn main")
    open(work + "/droot.vrs", "w").write(t[:i] + "//@include %s/dshapes.vrs\n" % work + t[i:])
    return ok, sorted(gone)
def shape_of(key):
    m = re.match(r"derive/(\w+)::", key) or re.match(r"derive::<Parse<\w+> for (\w+)>::", key) or re.match(r"derive::<(\w+)>::", key)
    return m.group(1) if m else None
def is_peek(key):
    """whether the function serves the peek side"""
    m = re.match(r"derive/\w+::(\w+)::", key) or re.match(r"derive::<.*>::(\w+)$", key)
    return bool(m) and "peek" in m.group(1)

class Res:
    def __init__(s): s.fails = []; s.notes = []; s.runs = []; s.kinds = {}; s.ro = None; s.pshapes = []; s.rshapes = []; s.items = None; s.probe = None; s.aprobe = None; s.left = []; s.bad = {}
    def own_keys(s, prop, keys):
        out = []
        for k in keys:
            n = shape_of(k)
            if n is None: continue
            en = s.kinds.get(n) == "enum"; pk = is_peek(k)
            if prop == "C13" and not en and not pk or prop == "C14" and en and not pk or prop == "C15" or prop == "C16" or prop == "C18" and not pk and "__ParseIgnore" not in k or prop == "C17": out.append(k)
        return out
    def owns(s, prop, k, d):
        kd = props.kind(d); end = {"decreases", "panic", "overflow", "zero"}
        if prop in ("C13", "C14"): return kd if kd not in end | {"error"} else None
        if prop == "C15": return None       # pairs, below
        if prop == "C16": return kd if kd in end else None
        if prop == "C18": return kd if kd == "error" else None
        return None                         # C17: groups, below
    def extra_refuted(s, prop):
        """obligations that only count against others: C15 pairs of peek and parse, C17 members of a group"""
        out = []
        end = {"decreases", "panic", "overflow", "zero", "error"}
        for mode, r in s.runs:
            st = {}
            for k, f in r.fns.items():
                n = shape_of(k)
                if n: st.setdefault(n, {}).setdefault("peek" if is_peek(k) else "parse", []).append((k, f))
            def side(fs):
                if any(f["status"] == "failed" and any(props.kind(d) not in end for d in f["diags"]) for _, f in fs): return "failed"
                return "proved" if all(f["status"] == "proved" or f["status"] == "failed" and all(props.kind(d) in end for d in f["diags"]) for _, f in fs) else "unknown"
            if prop == "C15":
                for n, x in st.items():
                    a, b = side(x.get("parse", [])), side(x.get("peek", []))
                    if {a, b} == {"failed", "proved"}:
                        for k, f in x["parse" if a == "failed" else "peek"]:
                            if f["status"] == "failed": out.append((mode, k, f, f["diags"][0]))
            if prop == "C17":
                g = {}
                for sh in s.pshapes:
                    if sh.group and sh.name in st: g.setdefault(sh.group, []).append((sh.name, [side(st[sh.name].get(w, [])) for w in ("parse", "peek")]))
                for grp, ms in g.items():
                    for w in (0, 1):
                        if any(m[1][w] == "proved" for m in ms):
                            for n, sd in ms:
                                if sd[w] == "failed":
                                    for k, f in st[n][("parse", "peek")[w]]:
                                        if f["status"] == "failed": out.append((mode, k, f, f["diags"][0]))
        return out
    def coverage(s, cov):
        cov["derive"] = dict(definitions_under_contract=[x.name for x in s.pshapes], left_out_of_the_proof=s.left, definitions_replayed=[x.name for x in s.rshapes], does_not_compile=s.bad)
        mine = [(k, f) for _, r in s.runs for k, f in r.fns.items() if shape_of(k)]
        cov["programs"] = len({shape_of(k) for k, _ in mine}); cov["disagreements_checked"] = sum(1 for _, f in mine if f["status"] in ("proved", "failed"))
        cov["programs_rule"] = "a program is a definition whose derived impls (the real derive's output) are under contract; disagreements_checked counts its functions the verifier compared with the contract the definition spells"
        if s.probe is not None:
            # the derived ignore enums' parse is never called: its precondition is false on purpose
            s.probe["never_callable"] = [k for k in s.probe["vacuous"] if "__ParseIgnore" in k and k.endswith("::parse")]
            s.probe["vacuous"] = [k for k in s.probe["vacuous"] if k not in s.probe["never_callable"]]
        if not cov.get("samples"): cov["samples"] = [re.sub(r"\s+", " ", shapes.source(x)) for x in s.pshapes[:6]]
        if s.ro is not None:
            cov["derive"].update(replay_cases=s.ro.cases, replay_nontrivial=s.ro.nontrivial, replay_wall_s=round(s.ro.wall, 2))
            cov["evaluations"] = cov.get("evaluations", 0) + s.ro.cases; cov["distinct_nontrivial"] = cov.get("distinct_nontrivial", 0) + s.ro.nontrivial
            cov["samples"] = (cov.get("samples") or [])[:4] + s.ro.samples[:6]
            cov.setdefault("rule", "BOUNDED stand-in and counterexample search, not counted as proved: derived parsers over mock components against an independent interpreter of the definitions; a case is one definition on one input in one surrounding, distinct by construction of the inputs up to damage repeating one, non-trivial when the input is not empty (see /verif/derive/replay)")
        if s.items is not None: cov["derive"]["attribute_items_compiled"] = s.items
        if s.probe is not None: cov["derive"]["vacuity_probe"] = s.probe
        if s.aprobe is not None: cov["derive"]["attr_vacuity_probe"] = dict(contracted=sum(1 for f in s.aprobe.fns.values() if f["status"] != "stub"), vacuous=[k for k, f in s.aprobe.fns.items() if f["status"] == "proved"])

def run(prop, tier, seed, work, VX):
    from concurrent.futures import ThreadPoolExecutor
    o = Res()
    w = work + "/d"; os.makedirs(w)
    def do_replay():
        b, shps, bad, note = build(w, replay_shapes(prop))
        o.rshapes = shps; o.bad = bad
        if note: return note
        o.ro = replay.run(b, prop, tier, seed, w, timeout=400 if tier == "quick" else 700)
        if o.ro.note: return "derive replay: " + o.ro.note
    def do_items():
        return items_check(w) if prop == "C17" else None
    def do_proof(path, modes):
        vx = VX.result(); text = open(path).read()
        ok, left = spec_files(w, text, proof_shapes(prop)); o.pshapes = ok; o.left = left; o.kinds = {s.name: s.kind for s in ok}
        mods = ["lexemes"] + ["sh_" + s.name for s in ok]
        def one(mode, probe):
            r = proof.run(vx, w, root=w + "/droot.vrs", mode=mode, srcs=proof.CORE_SRCS + [("derive", path)], timeout=240, hard_limit=330, tag="derive_%s%s" % (mode, "_probe" if probe else ""), modules=mods, probe=probe)
            r.fns = {k: f for k, f in r.fns.items() if k.startswith("derive")}
            r.thms = {n: t for n, t in r.thms.items() if n.startswith("thm_agree_") and n[10:] in o.kinds}
            r.problems = [p for p in r.problems if "derive" in str(p)]; r.uncovered = [u for u in r.uncovered if "derive" in str(u)]
            return r
        with ThreadPoolExecutor(3) as ex:
            fs = [(m, p, ex.submit(one, m, p)) for m, p in modes]
            for m, p, f in fs:
                try: r = f.result()
                except Exception as e: o.notes.append("derive proof %s: %s" % (m, e)); continue
                if p: o.probe = dict(contracted=sum(1 for f in r.fns.values() if f["status"] != "stub"), vacuous=[k for k, f in r.fns.items() if f["status"] == "proved"]); continue
                if r.note: o.notes.append("derive proof %s: %s" % (m, r.note))
                o.runs.append(("derive " + m, r))
    def do_attr(probe):
        D = REPO + "/nommy-derive/src/"
        srcs = [("attr", D + "attr.rs")] + [("gen", D + f) for f in ("fn_impl.rs", "parsers.rs")] + [("gen", D + d + "/" + f + ".rs") for d in ("struct_impl", "enum_impl") for f in ("mod", "named", "unnamed", "unit")] + [("gen", D + "lib.rs")]
        r = proof.run(VX.result(), w, root="root_attr.vrs", srcs=srcs, timeout=200, hard_limit=300, tag="attr" + ("_probe" if probe else ""), probe=probe)
        if probe: o.aprobe = r; return
        if r.note: o.notes.append("attr proof: " + r.note)
        o.runs.append(("attr", r))
    def guarded(f, *a):
        try: return f(*a)
        except Exception as e: return "derive: %s: %s" % (type(e).__name__, str(e)[:600])
    modes = ([("A", None), ("B", None)] if prop == "C16" else [("A", None)]) + ([("A", 1)] if tier == "thorough" else [])
    def expand_and_prove():
        path, _ = expand(w, proof_shapes(prop))
        do_proof(path, modes)
    with ThreadPoolExecutor(5) as ex:
        fa = [ex.submit(guarded, do_attr, p) for p in ([None] + ([1] if tier == "thorough" else []))] if prop != "C16" else []
        f1 = ex.submit(guarded, do_replay); f2 = ex.submit(guarded, do_items); f3 = ex.submit(guarded, expand_and_prove)
        n1, it, n3 = f1.result(), f2.result(), f3.result(); na = [f.result() for f in fa]
    for n in [n1, n3] + na:
        if isinstance(n, str): o.notes.append(n)
    if isinstance(it, str): o.notes.append(it)
    elif it is not None:
        acc, refused, n, note = it
        o.items = n
        if note: o.notes.append(note)
        for lab, body in acc: o.fails.append((lab, "accepted: " + re.sub(r"\s+", " ", body % "Item")))
        for lab, m in refused: o.notes.append("an item that should be accepted is not: %s: %s" % (lab, m))
    if o.ro is not None:
        o.fails += o.ro.fails
        by = {s.name: s for s in shapes.SHAPES}
        for n, m in o.bad.items():
            s = by.get(n)
            mine = s is not None and (prop == "C13" and s.kind != "enum" or prop == "C14" and s.kind == "enum" or
                   prop == "C17" and s.group and not s.name.endswith("_one") and s.group + "_one" not in o.bad)
            if mine: o.fails.append((n, "the definition is refused by the compiler: %s" % m))
            else: o.notes.append("%s does not compile: %s" % (n, m))
    return o
