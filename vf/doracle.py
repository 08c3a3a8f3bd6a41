"""The table of parts that derive/replay interprets, and the definitions themselves, from vf/shapes.py."""
import re, shapes
def comp(t):
    if t in shapes.LEX or t in ("Z", "ZEnd"): return 'Comp::Lex("%s")' % t
    m = re.match(r"(Vec|Option|Box)<(.*)>$", t)
    if m: return "Comp::%s(&%s)" % ({"Vec": "Many", "Option": "Opt", "Box": "Bx"}[m.group(1)], comp(m.group(2)))
    m = re.match(r"\[(.*); (\d+)\]$", t)
    if m: return "Comp::Arr(&%s, %s)" % (comp(m.group(1)), m.group(2))
    return 'Comp::Shape("%s")' % t
def opt(t): return "None" if not t else "Some(%s)" % comp(t)
def comps(l): return "&[%s]" % ", ".join(comp(x) for x in l)
def fd(f, i):
    conv = f.ty if f.comp() != f.ty else None
    return 'Fd { label: "%s", comp: %s, conv: %s, list: %s, sep: %s, trail: %d, prefix: %s, suffix: %s }' % (
        f.label(i), comp(f.comp()), 'Some("%s")' % conv if conv else "None", "true" if f.inner else "false", opt(f.sep), {None: 0, "no": 0, "yes": 1, "maybe": 2}[f.trail], opt(f.prefix), opt(f.suffix))
def sq(name, x, ignore):
    return 'Sq { name: "%s", kind: %d, prefix: %s, suffix: %s, fields: &[%s], ignore: %s }' % (name, {"named": 0, "tuple": 1, "unit": 2}[x.kind], opt(x.prefix), opt(x.suffix), ", ".join(fd(f, i) for i, f in enumerate(x.fields)), comps(ignore))
def row(s):
    if s.kind != "enum": return '("%s", Sh::Struct(%s))' % (s.name, sq(s.name, s, s.ignore))
    return '("%s", Sh::Enum { name: "%s", prefix: %s, suffix: %s, ignore: %s, variants: &[%s] })' % (s.name, s.name, opt(s.prefix), opt(s.suffix), comps(s.ignore), ", ".join(sq(v.name, v, v.ignore + s.ignore) for v in s.variants))
def uses(s):
    """names of the shapes it is made of"""
    ts = [s.prefix, s.suffix] + s.ignore
    for x in [s] + s.variants:
        ts += [x.prefix, x.suffix] + x.ignore
        for f in x.fields: ts += [f.ty, f.parser, f.inner, f.sep, f.prefix, f.suffix]
    return set(w for t in ts if t for w in re.findall(r"\w+", t))
def total(s, by, seen=()):
    """no conversion in it can fail"""
    for w in uses(s):
        if shapes.CONV.get(w, (0, False))[1]: return False
        if w in by and w not in seen and w != s.name and not total(by[w], by, seen + (s.name,)): return False
    return True
def kind(s): return "zero" if s in shapes.ZSHAPES else "enum" if s.kind == "enum" else "struct"
def source(shps):
    """the generated module: definitions, table, registry; and the line range of each definition"""
    by = {s.name: s for s in shps}
    o = ["// generated by vf/doracle.py", "use crate::mocks::*; use crate::oracle::*; use crate::Visit;"]
    lines = {}; n = 2
    for s in shps:
        t = "#[derive(Debug)]\n" + shapes.source(s)
        k = t.count("\n") + 1
        lines[s.name] = [(n + 1, n + k)]; n += k
        o.append(t)
    o.append("pub static SHAPES: &[(&str, Sh)] = &[\n%s\n];" % ",\n".join(row(s) for s in shps)); n += len(shps) + 2
    for i, s in enumerate(shps): lines[s.name].append((n + 2 + i, n + 2 + i))
    o.append("pub fn each(v: &mut impl Visit) {\n%s\n}" % "\n".join('    v.visit::<%s>("%s", "%s", "%s", %s);' % (s.name, s.name, kind(s), s.group, "true" if total(s, by) else "false") for s in shps))
    return "\n".join(o) + "\n", lines
