"""The derive definitions that are expanded, put under contract and replayed.

One list of shapes serves all three uses: `source` writes the definition with its nommy attributes,
vf/dspec.py writes its contract from the wording of the properties, vf/doracle.py a table the replay interprets."""
import copy
from dataclasses import dataclass, field
from typing import Optional, List

# component parsers: opaque in the proofs, mocks over char in the replay (derive/src/mocks.rs)
LEX = ["A", "D", "C", "AB", "AAC", "AN", "Sp", "Cm", "Sm", "Dt", "PF"]
# conversions: target -> (from, can fail)
CONV = {"FA": ("A", False), "FB": ("D", False), "TN": ("AN", True), "FN": ("AN", False)}
ZERO = "Z"

@dataclass
class F:
    name: Optional[str] = None      # None: tuple field
    ty: str = "A"                   # field type (of an element, for lists)
    parser: Optional[str] = None
    inner: Optional[str] = None     # inner_parser
    sep: Optional[str] = None
    trail: Optional[str] = None     # yes | no | maybe
    prefix: Optional[str] = None
    suffix: Optional[str] = None
    style: str = "one"
    def comp(self): return self.inner or self.parser or self.ty
    def label(self, i): return self.name if self.name is not None else "elem%d" % i
    def rust_ty(self): return "Vec<%s>" % self.ty if self.inner else self.ty
    def settings(self):
        out = []
        if self.prefix: out.append("prefix = " + self.prefix)
        if self.inner: out.append("inner_parser = " + self.inner)
        if self.parser: out.append("parser = " + self.parser)
        if self.sep: out.append("seperated_by = " + self.sep)
        if self.trail: out.append('trailing = "%s"' % self.trail)
        if self.suffix: out.append("suffix = " + self.suffix)
        return out

@dataclass
class V:
    name: str
    kind: str = "unit"              # named | tuple | unit
    fields: List[F] = field(default_factory=list)
    prefix: Optional[str] = None
    suffix: Optional[str] = None
    ignore: List[str] = field(default_factory=list)
    style: str = "one"

@dataclass
class S:
    name: str
    kind: str = "named"             # named | tuple | unit | enum
    fields: List[F] = field(default_factory=list)
    variants: List[V] = field(default_factory=list)
    prefix: Optional[str] = None
    suffix: Optional[str] = None
    ignore: List[str] = field(default_factory=list)
    parse_type: Optional[str] = None
    style: str = "one"
    prove: bool = True              # recursive and zero-width shapes are replayed only
    group: str = ""                 # C17: spellings of one definition
    params: List[str] = field(default_factory=list)   # type parameters

def settings(x):
    out = []
    if x.prefix: out.append("prefix = " + x.prefix)
    for i in x.ignore: out.append("ignore = " + i)
    if x.suffix: out.append("suffix = " + x.suffix)
    if getattr(x, "parse_type", None): out.append("parse_type = " + x.parse_type)
    return out
# a value that a later setting of the same name replaces
DUP = {"prefix": "Dt", "suffix": "Dt", "parser": "Dt", "inner_parser": "Dt", "seperated_by": "Dt", "trailing": '"yes"', "parse_type": "Never"}
def attrs(sets, style):
    """the settings, spread over attribute blocks in the given style"""
    if not sets: return ""
    if style == "one": return "#[nommy(%s)]" % ", ".join(sets)
    if style == "split": return "\n".join("#[nommy(%s)]" % s for s in sets)
    if style == "mixed":
        h = (len(sets) + 1) // 2
        return "\n".join("#[nommy(%s)]" % ", ".join(p) for p in (sets[:h], sets[h:]) if p)
    if style == "docs":
        h = len(sets) // 2
        return "/// words\n" + "\n#[allow(dead_code)]\n".join("#[nommy(%s)]" % ", ".join(p) for p in (sets[:h], sets[h:]) if p)
    if style == "rev":      # settings of different names may come in any order; ignores keep theirs
        ig = [s for s in sets if s.startswith("ignore")]; ot = [s for s in sets if not s.startswith("ignore")]
        return "#[nommy(%s)]" % ", ".join(ig + ot[::-1])
    if style == "revsplit":
        ig = [s for s in sets if s.startswith("ignore")]; ot = [s for s in sets if not s.startswith("ignore")]
        return "\n".join("#[nommy(%s)]" % s for s in ot[::-1] + ig)
    if style in ("dup", "dupsplit"):   # every single-valued setting is given twice: the last one counts
        d = []
        for s in sets:
            n = s.split(" =")[0]
            if n in DUP and s != "%s = %s" % (n, DUP[n]): d.append("%s = %s" % (n, DUP[n]))
        return attrs(d + sets, "one" if style == "dup" else "split")
    raise ValueError(style)

def fields_src(kind, fields, ind):
    out = []
    for f in fields:
        a = attrs(f.settings(), f.style)
        if a: out += [ind + l for l in a.split("\n")]
        out.append(ind + ("%s: %s," % (f.name, f.rust_ty()) if kind == "named" else f.rust_ty() + ","))
    return "\n".join(out)

def source(s, derive="nommy::Parse", vis="pub "):
    o = ["#[derive(%s)]" % derive]
    a = attrs(settings(s), s.style)
    if a: o.append(a)
    g = "<%s>" % ", ".join(s.params) if s.params else ""
    if s.kind == "unit": o.append("%sstruct %s%s;" % (vis, s.name, g))
    elif s.kind == "named": o.append("%sstruct %s%s {\n%s\n}" % (vis, s.name, g, fields_src("named", s.fields, "    ")))
    elif s.kind == "tuple": o.append("%sstruct %s%s (\n%s\n);" % (vis, s.name, g, fields_src("tuple", s.fields, "    ")))
    else:
        o.append("%senum %s%s {" % (vis, s.name, g))
        for v in s.variants:
            a = attrs(settings(v), v.style)
            if a: o += ["    " + l for l in a.split("\n")]
            if v.kind == "unit": o.append("    %s," % v.name)
            elif v.kind == "named": o.append("    %s {\n%s\n    }," % (v.name, fields_src("named", v.fields, "        ")))
            else: o.append("    %s (\n%s\n    )," % (v.name, fields_src("tuple", v.fields, "        ")))
        o.append("}")
    return "\n".join(o)

SHAPES: List[S] = []
def add(*a, **k):
    s = S(*a, **k); SHAPES.append(s); return s

# ---- structs
add("N1", "named", [F("a", "A")])
add("N2", "named", [F("a", "A"), F("b", "D")])
add("N3", "named", [F("a", "A"), F("b", "D"), F("c", "C")], ignore=["Sp"])
add("NP", "named", [F("a", "A")], prefix="D", suffix="C")
add("NPI", "named", [F("a", "A"), F("b", "D")], prefix="AB", suffix="Sm", ignore=["Sp", "Cm"])
add("NF", "named", [F("a", "A", prefix="D", suffix="C"), F("b", "AN", prefix="Cm")], ignore=["Sp"])
add("NF0", "named", [F("a", "AN", suffix="Sm"), F("b", "D", prefix="Cm", suffix="Dt")])
add("NPF", "named", [F("a", "A", prefix="D"), F("b", "A", suffix="D")], prefix="C", suffix="C", ignore=["AB"])
add("NC", "named", [F("a", "FA", parser="A"), F("n", "TN", parser="AN", prefix="Cm")], ignore=["Sp"])
add("NC2", "named", [F("n", "FN", parser="AN"), F("b", "FB", parser="D", suffix="Sm")], suffix="Dt")
add("NFar", "named", [F("a", "AAC"), F("b", "AB")], ignore=["PF"])
add("NIgOver", "named", [F("a", "A"), F("b", "AB"), F("c", "C")], ignore=["AB", "AN"])
add("NOrd", "named", [F("z", "A"), F("y", "D"), F("x", "C"), F("w", "A")])
add("T1", "tuple", [F(None, "AN")], prefix="Cm", ignore=["Sp"])
add("T2", "tuple", [F(None, "A"), F(None, "FB", parser="D")], ignore=["Sp"])
add("T3", "tuple", [F(None, "A", prefix="D", suffix="C"), F(None, "D"), F(None, "AN", suffix="Sm")], prefix="Dt", suffix="Dt", ignore=["Sp", "Cm"])
add("T4", "tuple", [F(None, "D", suffix="Sm"), F(None, "TN", parser="AN")])
add("U0", "unit", prefix="AB")
add("U1", "unit", prefix="A", suffix="D", ignore=["Sp"])
add("U2", "unit")
add("U3", "unit", suffix="AAC", ignore=["Sp", "Cm"])
# ---- lists
for i, (sep, tr) in enumerate([(None, None), ("Cm", None), ("Cm", "no"), ("Cm", "yes"), ("Cm", "maybe")]):
    add("L%d" % i, "named", [F("v", "A", inner="A", sep=sep, trail=tr)], ignore=["Sp"])
    add("LM%d" % i, "named", [F("p", "D"), F("v", "FA", inner="A", sep=sep, trail=tr, prefix="Dt", suffix="Sm"), F("q", "C")], ignore=["Sp", "PF"])
    add("LT%d" % i, "tuple", [F(None, "TN", inner="AN", sep=sep, trail=tr), F(None, "D")])
    add("LS%d" % i, "named", [F("v", "AB", inner="AB", sep=sep, trail=tr), F("w", "A", inner="A", sep=sep and "Sm", trail=tr)], prefix="Dt", suffix="C", ignore=["Sp"])
add("LSep", "tuple", [F(None, "A", inner="A", sep="AB", trail="maybe")], ignore=["Sp"], suffix="Sm")
add("LFar", "named", [F("v", "AAC", inner="AAC", sep="AB", trail="yes")], ignore=["PF"])
# ---- conversions through a named parser on a plain field, values nested
add("In1", "named", [F("x", "A", suffix="Cm")], ignore=["Sp"])
add("Out1", "named", [F("i", "In1"), F("j", "In1", prefix="Sm")], prefix="Dt", ignore=["Sp"])
add("Out2", "tuple", [F(None, "In1", inner="In1", sep="Sm", trail="maybe")], suffix="Dt", ignore=["Sp"])
add("Out3", "named", [F("b", "D")], prefix="In1", suffix="In1", ignore=["In1"])
# ---- parse_type
add("PT1", "named", [F("a", "A"), F("b", "FB", parser="D")], parse_type="char", prefix="Cm", ignore=["Sp"])
add("PT2", "tuple", [F(None, "AN", inner="AN", sep="Cm", trail="maybe")], parse_type="char", ignore=["Sp", "PF"], suffix="Sm")
add("PT3", "unit", parse_type="char", prefix="A", suffix="D", ignore=["Sp"])
# ---- enums
add("E1", "enum", variants=[V("P", "tuple", [F(None, "A")]), V("Q", "named", [F("b", "D")]), V("R")])
add("E2", "enum", variants=[V("Long", "tuple", [F(None, "A"), F(None, "A"), F(None, "C")]), V("Short", "tuple", [F(None, "A")]), V("Other", "unit", prefix="D")])
add("E3", "enum", prefix="Cm", suffix="Sm", ignore=["Sp"], variants=[V("Ab", "tuple", [F(None, "A"), F(None, "D")]), V("Ac", "named", [F("x", "A"), F("y", "C")]), V("Bb", "unit", prefix="D")])
add("E4", "enum", ignore=["Sp"], variants=[V("X", "named", [F("x", "A"), F("y", "D")], prefix="Dt", suffix="Dt", ignore=["Cm"]), V("Y", "tuple", [F(None, "A")], prefix="Dt", ignore=["Sm", "Cm"]), V("Z", "unit", prefix="Dt", suffix="C")])
add("E5", "enum", suffix="Dt", variants=[V("F", "tuple", [F(None, "AAC")]), V("G", "tuple", [F(None, "AB")]), V("H", "tuple", [F(None, "AN", suffix="D")])])
add("E6", "enum", prefix="Dt", ignore=["Sp"], variants=[V("L", "tuple", [F(None, "A", inner="A", sep="Cm", trail="yes"), F(None, "D")]), V("M", "named", [F("v", "FA", inner="A", sep="Cm", trail="maybe"), F("c", "C")], ignore=["Sm"]), V("N", "tuple", [F(None, "TN", inner="AN", sep="Sm")], suffix="Dt")])
add("E7", "enum", variants=[V("One", "tuple", [F(None, "TN", parser="AN")]), V("Two", "tuple", [F(None, "FN", parser="AN", prefix="A")], suffix="D"), V("Three", "named", [F("u", "U1"), F("n", "In1")])])
add("E8", "enum", parse_type="char", prefix="Cm", suffix="Cm", ignore=["Sp"], variants=[V("P", "tuple", [F(None, "A"), F(None, "E1")]), V("Q", "named", [F("b", "FB", parser="D", prefix="Sm")], ignore=["Dt"])])
add("E9", "enum", ignore=["Sp", "Cm"], variants=[V("S", "tuple", [F(None, "E3")], prefix="A"), V("T", "tuple", [F(None, "E3"), F(None, "E3", prefix="A")], ignore=["Dt"]), V("U", "unit", suffix="AB")])
add("ES", "enum", prefix="Dt", variants=[V("Only", "named", [F("a", "A"), F("b", "D", inner="D")])], ignore=["Sp"])
add("HoldE", "named", [F("e", "E2"), F("f", "E3", prefix="Dt"), F("g", "E2", inner="E2", sep="Cm", trail="maybe")], ignore=["Sp"])
# ---- library parsers inside, recursion: replayed only
add("RL", "enum", parse_type="char", ignore=["Sp"], prove=False, variants=[V("Atom", "tuple", [F(None, "AN")]), V("List", "tuple", [F(None, "Vec<RL>", prefix="Cm", suffix="Sm")])])
add("RB", "enum", parse_type="char", prove=False, ignore=["Sp"], variants=[V("Neg", "tuple", [F(None, "Box<RB>")], prefix="Dt"), V("Pair", "named", [F("l", "A"), F("r", "Box<RB>", prefix="Cm")]), V("Leaf", "tuple", [F(None, "A")])])
add("RI", "named", [F("h", "D"), F("t", "RI", inner="RI", sep="Cm", trail="maybe", prefix="Sm", suffix="Dt")], parse_type="char", prove=False, ignore=["Sp"])
add("NO", "named", [F("a", "Option<A>"), F("b", "Vec<D>"), F("c", "Option<AB>", prefix="Cm")], prefix="C", suffix="Option<Sm>", ignore=["Sp"], prove=False)
add("NV", "named", [F("a", "Vec<AB>", suffix="Sm"), F("b", "Box<A>"), F("c", "[D; 2]")], ignore=["Sp"], prove=False)

# ---- wide definitions: every combination of a field's settings, late fields and variants; replayed only
def combos(tuple_):
    n = lambda i: None if tuple_ else "f%d" % i
    out = []
    for i in range(8):
        c = dict(prefix="Dt" if i & 1 else None, suffix="Sm" if i & 2 else None)
        out.append(F(n(i), "FA", parser="A", **c) if i & 4 else F(n(i), "D", **c))
    return out
add("WM", "named", combos(False), ignore=["Sp"], prove=False)
add("WMr", "named", combos(False)[::-1], prefix="Cm", suffix="Cm", prove=False)
add("WT", "tuple", combos(True)[::-1] + combos(True)[4:], ignore=["Sp"], suffix="Cm", prove=False)
for k, (p, q) in enumerate([(None, None), ("Dt", None), (None, "Sm"), ("Dt", "Sm")]):
    add("WL%d" % k, "tuple", [F(None, "D"), F(None, "A"), F(None, "C")] + [F(None, "FA", inner="A", sep=sep, trail=tr, prefix=p, suffix=q or "C") for sep, tr in (("Cm", "maybe"), (None, None), ("Cm", "yes"), ("Cm", None), ("Cm", "no"))], ignore=["Sp"], prove=False)
# the same with an item type given, and with nothing ignored
for k, (pt, ig, p) in enumerate([("char", ["Sp"], None), ("char", [], "Dt"), (None, [], None), (None, ["Sp", "Cm", "AB"], "Cm")]):
    fs = [F("l%d" % i, ["A", "FA"][i % 2] if i < 8 else "TN", inner="A" if i < 8 else "AN", sep=sep, trail=tr, prefix="D" if i in (2, 5) else None, suffix=None if i in (1, 7) else "C") for i, (sep, tr) in enumerate([("Sm", "yes"), (None, None), ("Sm", "maybe"), ("Sm", "no"), ("Sm", None), (None, None), ("Sm", "yes"), ("Sm", "no"), ("Sm", "maybe")])]
    for h, part in (("a", fs[:3]), ("b", fs[3:6]), ("c", fs[6:])): add("WP%d%s" % (k, h), "named", part, parse_type=pt, ignore=ig, prefix=p, prove=False)
    add("WQ%d" % k, "tuple", combos(True)[:5], parse_type=pt, ignore=ig, suffix=p, prove=False)
    add("WX%d" % k, "enum", parse_type=pt, ignore=ig, prove=False, variants=[V("L%d" % i, "named", [f], prefix=["D", "Dt", None, "AN"][i]) for i, f in enumerate(fs[:4])])
WV = [("tuple", [F(None, "A"), F(None, "C")]), ("named", [F("x", "A"), F("y", "D", prefix="Sm")]), ("unit", [])]
add("WE", "enum", ignore=["Sp"], prove=False, variants=[V("V%d" % i, WV[i % 3][0], copy.deepcopy(WV[i % 3][1]), prefix=["D", "Cm", "C"][i // 3 % 3] if i < 9 else "Dt", suffix="Sm" if i % 2 else None, ignore=["AB"] if i in (4, 8) else []) for i in range(12)])
# a variant that matches nothing at all, or may, hides those behind it
add("WU1", "enum", prove=False, variants=[V("Aa", "tuple", [F(None, "A"), F(None, "D")]), V("Un"), V("Bb", "tuple", [F(None, "D")])], ignore=["Sp"])
add("WU2", "enum", prove=False, prefix="Cm", suffix="C", variants=[V("Li", "tuple", [F(None, "A", inner="A", sep="Sm")]), V("Pp", "unit", prefix="D"), V("Qq", "named", [F("d", "D")])])
add("WU3", "enum", prove=False, suffix="Sm", variants=[V("Pp", "unit", prefix="D", suffix="Dt"), V("Qq", "unit", suffix="C"), V("Rr"), V("Ss", "unit", prefix="Cm"), V("Tt", "named", [F("d", "D")])], ignore=["AB"])
add("WU4", "enum", prove=False, variants=[V("Rr"), V("Aa", "tuple", [F(None, "A")])])
add("WEf", "enum", suffix="Dt", prove=False, variants=[V("Wide", "tuple", combos(True)), V("Rev", "named", combos(False)[::-1]), V("End", "unit", prefix="Cm")])
add("WEp", "enum", prefix="D", parse_type="char", prove=False, variants=[V("Wide", "named", combos(False)[2:7], prefix="C", suffix="C"), V("Rev", "tuple", combos(True)[:1:-1], prefix="C"), V("End", "unit", prefix="C")])

# ---- C17: one definition, several spellings
def spellings(base, styles, inner=True):
    for st in styles:
        s = copy.deepcopy(base); s.name = base.name + "_" + st; s.style = st; s.group = base.name
        if inner:
            for f in s.fields: f.style = st
            for v in s.variants:
                v.style = st
                for f in v.fields: f.style = st
        SHAPES.append(s)
STYLES = ["one", "split", "mixed", "docs", "rev", "revsplit", "dup", "dupsplit"]
spellings(S("GA", "named", [F("a", "FA", parser="A", prefix="D", suffix="C"), F("v", "A", inner="A", sep="Cm", trail="maybe", prefix="Sm")], prefix="Dt", suffix="C", ignore=["Sp", "AB"]), STYLES)
spellings(S("GT", "tuple", [F(None, "FA", inner="A", sep="Cm", trail="no", suffix="Dt"), F(None, "D", prefix="Sm", suffix="C")], prefix="Cm", suffix="Cm", ignore=["AN", "Sp"]), STYLES)
spellings(S("GL", "tuple", [F(None, "FA", inner="A", sep="Cm", trail="no", suffix="Dt"), F(None, "A", inner="A", sep="Sm", trail="maybe", suffix="D"), F(None, "A", inner="A", sep="Cm", trail="yes", prefix="Sm"), F(None, "FA", parser="A", suffix="C")], ignore=["Sp"], prove=False), STYLES)
spellings(S("GLe", "enum", prove=False, variants=[V("X", "tuple", [F(None, "A", inner="A", sep="Cm", trail="no", prefix="D")], suffix="Dt"), V("Y", "named", [F("v", "FA", inner="A", sep="Sm", trail="maybe")], prefix="Cm", suffix="C"), V("Z", "tuple", [F(None, "A", inner="A", trail="no")])], suffix="Sm", ignore=["Sp"]), ["one", "split", "rev", "dup", "dupsplit"])
spellings(S("GE", "enum", prefix="Cm", suffix="Dt", ignore=["Sp", "Sm"], variants=[V("X", "tuple", [F(None, "FA", parser="A", prefix="D", suffix="C")], prefix="Sm", suffix="C", ignore=["AB", "D"]), V("Y", "named", [F("v", "A", inner="A", sep="Cm", trail="yes", suffix="D")], ignore=["Dt"]), V("Z", "unit", prefix="C", suffix="Sm")]), STYLES)
spellings(S("GP", "named", [F("a", "FA", parser="A", suffix="Sm")], parse_type="char", prefix="D", ignore=["Sp"]), STYLES)
spellings(S("GU", "unit", prefix="A", suffix="D", ignore=["Sp", "Cm"]), ["one", "split", "mixed", "revsplit", "dupsplit"])

# ---- C17: ignore types accumulate, in order, a variant's own before its enum's; names ending in 1 have one of them only
for i, ig, st in [("a1", ["Sp"], "one"), ("b1", ["Cm"], "one"), ("c", ["Sp", "Cm"], "one"), ("d", ["Cm", "Sp"], "split"), ("e", ["Sp", "Cm"], "docs")]:
    add("IgS_" + i, "named", [F("x", "A", suffix="D"), F("y", "C")], prefix="Dt", ignore=ig, style=st, prove=False)
for i, ig, st in [("a1", ["A"], "one"), ("b1", ["AB"], "one"), ("c", ["A", "AB"], "one"), ("d", ["AB", "A"], "one"), ("e", ["A", "AB"], "split"), ("f", ["AB", "A"], "mixed"), ("g", ["A", "AB", "Sp"], "split"), ("h", ["Sp", "AB", "A"], "mixed")]:
    add("IgO_" + i, "tuple", [F(None, "C"), F(None, "AN")], suffix="Dt", ignore=ig, style=st, prove=False)
for i, vi, ei in [("a1", ["Cm"], []), ("b1", [], ["Sp"]), ("c", ["Cm"], ["Sp"]), ("d", ["Sp"], ["Cm"])]:
    add("IgE_" + i, "enum", prefix="D", suffix="D", ignore=ei, prove=False, variants=[V("P", "tuple", [F(None, "A"), F(None, "C", suffix="Sm")], ignore=vi), V("Q", "named", [F("x", "A")], prefix="Sm"), V("R", "unit", prefix="C", ignore=vi)])
for i, vi, ei in [("a1", ["A"], []), ("b1", [], ["AB"]), ("c", ["A"], ["AB"]), ("d", ["AB"], ["A"]), ("e", ["AB", "A"], []), ("f", [], ["A", "AB"]), ("g", ["Sp", "A"], ["AB"]), ("h", ["AB"], ["Sp", "A"])]:
    add("IgV_" + i, "enum", suffix="Dt", ignore=ei, prove=False, variants=[V("P", "tuple", [F(None, "C"), F(None, "AN")], ignore=vi), V("Q", "unit", prefix="Sm", suffix="AN", ignore=vi), V("R", "named", [F("x", "D")])])

# ---- C16: ignore types that succeed without consuming
ZSHAPES = [S("Z1", "named", [F("a", "A"), F("b", "D")], ignore=["Z"], prove=False), S("Z2", "tuple", [F(None, "A", suffix="D")], ignore=["Sp", "Z"], prove=False),
           S("Z3", "unit", prefix="A", suffix="D", ignore=["Z", "Sp"], prove=False), S("Z4", "enum", prefix="A", ignore=["Z"], variants=[V("P", "tuple", [F(None, "D")])], prove=False),
           S("Z5", "named", [F("a", "A", prefix="D")], ignore=["ZEnd"], prove=False)]

# ---- C17: settings that must be rejected (label, item)
def bad(body): return "#[derive(nommy::Parse)]\n" + body
BAD = []
for n, b in [
    ("unknown setting of a struct", "#[nommy(prefex = A)]\nstruct %s { a: A }"),
    ("unknown setting of an enum", "#[nommy(ignored = A)]\nenum %s { P(A) }"),
    ("unknown setting of a field", "struct %s { #[nommy(parsr = A)] a: A }"),
    ("unknown setting of a tuple field", "struct %s(#[nommy(separated_by = A)] A);"),
    ("unknown setting of a variant", "enum %s { #[nommy(sufix = A)] P(A) }"),
    ("unknown setting of a variant's field", "enum %s { P(#[nommy(prefx = A)] A) }"),
    ("unknown setting of a named variant's field", "enum %s { P { #[nommy(parserr = A)] a: A } }"),
    ("unknown setting of a unit variant", "enum %s { P(A), #[nommy(x = A)] R }"),
    ("unknown setting of a unit struct", "#[nommy(what = A)]\nstruct %s;"),
    ("unknown setting of a tuple struct", "#[nommy(pre = A)]\nstruct %s(A);"),
    ("unknown setting behind a known one", "#[nommy(prefix = A, prefex = D)]\nstruct %s { a: A }"),
    ("unknown setting in a second block", "#[nommy(prefix = A)]\n#[nommy(nope = D)]\nstruct %s { a: A }"),
    ("unknown setting before a known one", "#[nommy(nope = D, prefix = A)]\nstruct %s { a: A }"),
    ("unknown setting in a field's second block", "struct %s { #[nommy(prefix = A)] #[nommy(nope = D)] a: A }"),
    ("a field's setting on a type", "#[nommy(parser = A)]\nstruct %s { a: A }"),
    ("a type's setting on a field", "struct %s { #[nommy(ignore = A)] a: A }"),
    ("a type's setting on a field (parse_type)", "struct %s { #[nommy(parse_type = char)] a: A }"),
    ("no value", "#[nommy(prefix)]\nstruct %s { a: A }"),
    ("no value after '='", "#[nommy(prefix =)]\nstruct %s { a: A }"),
    ("no value for ignore", "#[nommy(ignore)]\nstruct %s { a: A }"),
    ("no '='", "#[nommy(prefix A)]\nstruct %s { a: A }"),
    ("wrong punctuation", "#[nommy(prefix: A)]\nstruct %s { a: A }"),
    ("wrong punctuation on a field", "struct %s { #[nommy(suffix > A)] a: A }"),
    ("a literal where a type is needed", "#[nommy(prefix = 3)]\nstruct %s { a: A }"),
    ("a string where a type is needed", "struct %s { #[nommy(parser = \"A\")] a: A }"),
    ("two types", "#[nommy(prefix = A D)]\nstruct %s { a: A }"),
    ("two types on a field", "struct %s { #[nommy(inner_parser = A D)] a: Vec<A> }"),
    ("an empty setting", "#[nommy(prefix = A,, suffix = D)]\nstruct %s { a: A }"),
    ("a literal for a setting's name", "#[nommy(\"prefix\" = A)]\nstruct %s { a: A }"),
    ("a literal for a field setting's name", "struct %s { #[nommy(3)] a: A }"),
    ("brackets for parentheses", "#[nommy[prefix = A]]\nstruct %s { a: A }"),
    ("braces for parentheses on a field", "struct %s { #[nommy{prefix = A}] a: A }"),
    ("no parentheses", "#[nommy = \"prefix\"]\nstruct %s { a: A }"),
    ("no parentheses on a field", "struct %s { #[nommy = \"prefix\"] a: A }"),
    ("trailing: unknown value", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing = \"always\")] a: Vec<A> }"),
    ("trailing: value not a string", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing = yes)] a: Vec<A> }"),
    ("trailing: no value after '='", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing =)] a: Vec<A> }"),
    ("trailing: no '='", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing \"yes\")] a: Vec<A> }"),
    ("trailing: wrong punctuation", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing : \"yes\")] a: Vec<A> }"),
    ("trailing: two values", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing = \"yes\" \"no\")] a: Vec<A> }"),
    ("trailing: a bool", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing = true)] a: Vec<A> }"),
    ("trailing: wrong case", "struct %s { #[nommy(inner_parser = A, seperated_by = D, trailing = \"Yes\")] a: Vec<A> }"),
    ("trailing on a variant's field: unknown value", "enum %s { P(#[nommy(inner_parser = A, seperated_by = D, trailing = \"\")] Vec<A>) }"),
]: BAD.append((n, b))
GOOD = [
    ("no settings at all", "struct %s { a: A }"), ("bare debug", "#[nommy(debug)]\nstruct %s { a: A }"),
    ("foreign attributes", "#[allow(dead_code)]\n/// words\nstruct %s { #[allow(dead_code)] a: A }"),
    ("generic types", "#[nommy(prefix = Option<(A, D)>)]\nstruct %s { a: A }"),
    ("a path", "struct %s { #[nommy(parser = self::A)] a: A }"),
]
