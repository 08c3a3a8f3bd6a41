"""Contract proofs: extract the functions from /repo's sources, let Verus discharge the obligations, read the outcome."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
N = REPO + "/nommy/src/"
CORE_SRCS = [("core", N + "buffer.rs"), ("core", N + "impls.rs"), ("core", N + "lib.rs"), ("vec", N + "vec.rs")] + \
            [(a, N + a + "/" + f) for a in ("text", "bytes") for f in ("mod.rs", "tag.rs", "one_of.rs", "many.rs")]
RLIMIT = "30"

def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC", "CARGO_HOME", "RUSTC_WRAPPER")}
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""): e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    e.update(kw); return e

def build_vx():
    t = os.path.join(BUILD, "vx")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=VERIF + "/extract", env=clean_env(CARGO_TARGET_DIR=t), capture_output=True, text=True)
    if p.returncode: raise RuntimeError("the extractor does not build: " + p.stderr[-2000:])
    return t + "/debug/vx"

class Result:
    def __init__(s):
        s.fns = {}          # key -> dict(status proved|failed|unknown|stub, why, diags, file, line)
        s.thms = {}         # name -> dict(status, props, diags)
        s.verified = 0; s.errors = 0; s.wall = 0.0; s.smt_ms = 0; s.cmd = ""; s.note = None; s.trusted = []; s.problems = []; s.uncovered = []; s.extra = []
        s.clauses = 0; s.version = ""

CANT = re.compile(r"rlimit|Resource limit|timed out|canceled|cancelled|solver|quantifier", re.I)

def extract(vx, root, out, mapf, mode, stubs, srcs, tdir, probe=None, defs=()):
    cmd = [vx, tdir, root, out, mapf, "--mode", mode]
    for s in stubs: cmd += ["--stub", s]
    for d in defs: cmd += ["--def", d]
    if probe: cmd += ["--probe", "1"]
    for a, f in srcs:
        if os.path.exists(f): cmd += ["--src", a + "=" + f]
    p = subprocess.run(cmd, capture_output=True, text=True, env=clean_env())
    if p.returncode: raise RuntimeError("extraction failed: " + (p.stderr or p.stdout)[-1500:])
    return json.load(open(mapf))

# With Z3's defaults as Verus sets them a refuted query can loop for ever inside Z3 (mam_impl::collect_parents), which no resource limit ends;
# with either of these options it does not, and every obligation of the unchanged tree is discharged as well.
CONFIGS = [("smt.delay_units=false", "3"), ("smt.case_split=1", "0")]
def verus(out, timeout, rlimit=RLIMIT, modules=None):
    for i, (opt, me) in enumerate(CONFIGS):
        r = verus1(out, timeout, rlimit, opt, me, modules)
        if r[2] != "timeout": return r
    return r
def verus1(out, timeout, rlimit, opt, me, modules=None):
    # one query per function, lemma and loop; for the many small functions of derived parsers that costs more than it saves
    sel = sum([["--verify-module", m] for m in modules], []) if modules else ["-V", "spinoff-all"]
    cmd = ["verus", "--edition=2018", out, "--crate-type", "lib"] + sel + ["--rlimit", rlimit, "--smt-option", opt, "--multiple-errors", me, "--output-json", "--time-expanded", "--error-format=json"]
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, capture_output=True, text=True, env=clean_env())
    except Exception as e:
        return None, [], str(e), cmd
    if p.returncode == 124 or p.returncode == 137: return None, [], "timeout", cmd
    diags = []
    for l in p.stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due"): diags.append(d)
    try: j = json.loads(p.stdout[p.stdout.index("{\n"):])
    except ValueError: j = None
    return j, diags, p.stderr[-3000:], cmd

def owner(lines, thms, others, fnmap, d):
    """the function, theorem or lemma a diagnostic belongs to"""
    spans = [s for s in d["spans"] if not (s.get("label") or "").startswith("failed ")] or d["spans"]
    spans = sorted(spans, key=lambda s: not s["is_primary"])
    for s in spans + [x for x in d["spans"] if x not in spans]:
        ln = s["line_start"]
        for f in fnmap:
            if f["start"] <= ln <= f["end"]: return ("fn", f["key"])
        for n, a, b, _ in thms:
            if a <= ln <= b: return ("thm", n)
    for s in spans:
        for i in range(s["line_start"] - 1, -1, -1):
            m = re.search(r"\bfn (\w+)", lines[i])
            if m: return ("other", m.group(1))
    return ("other", "?")

def clause_of(lines, d):
    """the clause tag of a contract line, when the failing obligation is one"""
    for s in d["spans"]:
        if (s.get("label") or "").startswith("failed ") or s["is_primary"] and "invariant" in d["message"]:
            l = lines[s["line_start"] - 1]
            m = re.search(r"// @clause (\w+)", l)
            if not m and s["line_start"] >= 2: m = re.search(r"^\s*// @clause (\w+)", lines[s["line_start"] - 2])
            return (m.group(1) if m else None), l.strip()
    return None, None

def render(lines, d):
    out = [d["message"]]
    for s in d["spans"]:
        out.append("  line %d%s: %s" % (s["line_start"], " (" + s["label"] + ")" if s.get("label") else "", lines[s["line_start"] - 1].strip()))
    return "\n".join(out)

def scan_trusted(lines):
    out = []
    for i, l in enumerate(lines):
        if "verifier::external_body" in l:
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(fn|struct) (\w+)", lines[k])
                if m:
                    for j in range(k, max(0, k - 60), -1):
                        im = re.match(r"\s*(?:pub )?(impl.*|trait .*)\{", lines[j])
                        if im and m.group(1) == "fn": out.append("%s (%s)" % (m.group(2), im.group(1).strip())); break
                        if re.match(r"^\}", lines[j]): out.append(m.group(2)); break
                    else: out.append(m.group(2))
                    break
    return out

def run(vx, work, root="root_all.vrs", mode="A", srcs=None, tdir=None, timeout=130, probe=None, defs=(), tag=None, hard_limit=560, modules=None):
    """extract and verify; functions that Verus cannot compile become stubs (not proved) and the rest is verified"""
    t0 = time.time()
    srcs = srcs or CORE_SRCS
    tdir = tdir or VERIF + "/verus"
    r = Result(); tag = tag or "%s_%s" % (os.path.splitext(os.path.basename(root))[0], mode)
    out, mapf = "%s/%s.rs" % (work, tag), "%s/%s.json" % (work, tag)
    stubs = []; why = {}
    for attempt in range(10):
        m = extract(vx, root, out, mapf, mode, stubs, srcs, tdir, probe, defs)
        lines = open(out).read().split("\n")
        fnmap = m["functions"]
        thms = []
        for i, l in enumerate(lines):
            x = re.match(r"\s*//@thm (\w+) ?(.*)", l)
            if x:
                e = next(k for k in range(i, len(lines)) if lines[k].strip() == "//@endthm")
                thms.append((x.group(1), i + 1, e + 1, x.group(2).split()))
        j, diags, err, cmd = verus(out, timeout, modules=modules)
        r.cmd = " ".join(cmd)
        if j is None and err == "timeout":
            r.note = "Verus gave no answer within %d s" % timeout; j = None; break
        ran = j is not None and j.get("verification-results", {}).get("verified") is not None and not j["verification-results"].get("encountered-vir-error") and (j["verification-results"]["verified"] + j["verification-results"]["errors"] > 0)
        if ran: break
        # not a verification outcome: something Verus does not accept
        new = []
        for d in diags:
            k, n = owner(lines, thms, None, fnmap, d)
            if k == "fn" and n not in stubs and n not in new: new.append(n); why[n] = "Verus does not accept it: " + d["message"]
        if not new or time.time() - t0 > hard_limit:
            r.note = "Verus rejects the extracted file: " + ("; ".join(d["message"] for d in diags[:3]) or err[-400:]); j = None; break
        stubs += new
    r.problems = m["problems"]; r.uncovered = m["not_under_contract"]
    r.trusted = scan_trusted(lines)
    r.clauses = sum(len(re.findall(r"// @clause", f["text"])) for f in fnmap)
    for f in fnmap:
        s = dict(status="unknown", why=r.note, diags=[], file=f["file"], line=f["line"], loops=f["loops"], text=f["text"])
        if f["error"]: s.update(status="stub", why="extraction: " + f["error"])
        elif f["stub"]: s.update(status="stub", why=why.get(f["key"], "stubbed"))
        elif j is not None: s.update(status="proved", why=None)
        r.fns[f["key"]] = s
    for n, a, b, props in thms: r.thms[n] = dict(status="proved" if j is not None else "unknown", props=props, diags=[])
    if j is not None:
        vr = j["verification-results"]; r.verified, r.errors = vr["verified"], vr["errors"]
        r.smt_ms = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        r.version = (j.get("verus") or {}).get("version", "")
        for d in diags:
            k, n = owner(lines, thms, None, fnmap, d)
            c, cl = clause_of(lines, d)
            st = "unknown" if CANT.search(d["message"]) else "failed"
            e = dict(message=d["message"], clause=c, clause_text=cl, text=render(lines, d))
            t = r.fns.get(n) if k == "fn" else r.thms.get(n) if k == "thm" else None
            if t is None: r.extra.append(dict(name=n, **e)); continue
            if t["status"] != "failed": t["status"] = st
            t["why"] = d["message"]; t["diags"].append(e)
    r.wall = time.time() - t0
    r.out = out
    return r
