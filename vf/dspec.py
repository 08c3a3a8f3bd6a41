"""Contracts for the code the derive generates, written from the properties C13, C14, C15, C18 and the shapes."""
import shapes
from shapes import S, F, V

def esc(s): return s.replace("\\", "\\\\").replace('"', '\\"')

class Out:
    def __init__(s): s.l = []
    def __call__(s, *a):
        for x in a: s.l += x.split("\n")
    def text(s): return "\n".join(s.l) + "\n"

def lexemes(o, names, conv):
    for n in names:
        o("""/// an opaque component parser
pub struct %(n)s;
impl Abs for %(n)s { type V = %(n)s; open spec fn abs(&self) -> %(n)s { *self } }
impl<T> Parse<T> for %(n)s {
    uninterp spec fn pre() -> bool;
    uninterp spec fn ppre() -> bool;
    uninterp spec fn ok(s: Seq<T>) -> bool;
    uninterp spec fn rest(s: Seq<T>) -> Seq<T>;
    uninterp spec fn val(s: Seq<T>) -> %(n)s;
    uninterp spec fn err(s: Seq<T>) -> ErrV;
    uninterp spec fn pk(s: Seq<T>) -> bool;
    uninterp spec fn pkr(s: Seq<T>) -> Seq<T>;
    uninterp spec fn zero(s: Seq<T>) -> bool;
    uninterp spec fn pzero(s: Seq<T>) -> bool;
    #[verifier::external_body]
    proof fn law(s: Seq<T>) {}
    #[verifier::external_body]
    fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool) { unimplemented!() }
}""" % dict(n=n))
        identity(o, n)
    for n, (src, fails) in conv.items():
        o("""/// what a %(a)s converts into
pub struct %(n)s;
impl Abs for %(n)s { type V = %(n)s; open spec fn abs(&self) -> %(n)s { *self } }
impl TryFrom<%(a)s> for %(n)s {
    type Error = Report;
    uninterp spec fn tconv(v: %(a)s) -> Option<%(n)s>;
    uninterp spec fn tcerr(v: %(a)s) -> ErrV;
    #[verifier::external_body]
    fn try_from(a: %(a)s) -> (r: core::result::Result<Self, Report>) { unimplemented!() }
}""" % dict(n=n, a=src))

def identity(o, n):
    o("""impl TryFrom<%(n)s> for %(n)s {
    type Error = Report;
    open spec fn tconv(v: <%(n)s as Abs>::V) -> Option<<%(n)s as Abs>::V> { Some(v) }
    open spec fn tcerr(v: <%(n)s as Abs>::V) -> ErrV { arbitrary() }
    fn try_from(a: %(n)s) -> (r: core::result::Result<Self, Report>) { Ok(a) }
}""" % dict(n=n))

class Seqn:
    """A sequence of parts: the steps of a struct or of a variant, with the ignore types skipped after each part."""
    def __init__(q, ident, ty, prefix, suffix, fields, ignore, what, name, pt):
        q.id = ident; q.ignore = ignore; q.fields = fields; q.what = what; q.name = name; q.pt = pt
        q.T = pt or "T"; q.g = "" if pt else "<T>"; q.tf = "" if pt else "::<T>"
        q.steps = []
        if prefix: q.steps.append(("fix", prefix, 'failed to parse prefix for %s `%s`' % (what, name)))
        for i, f in enumerate(fields):
            lb = f.label(i)
            if f.prefix: q.steps.append(("fix", f.prefix, "failed to parse prefix for field `%s`" % lb))
            q.steps.append(("list" if f.inner else "one", f, "failed to parse field `%s`" % lb, i))
            if f.suffix: q.steps.append(("fix", f.suffix, "failed to parse suffix for field `%s`" % lb))
        if suffix: q.steps.append(("fix", suffix, 'failed to parse suffix for %s `%s`' % (what, name)))
        q.Ip = ident + "_Ip"; q.Ik = ident + "_Ik"
    def lspec(q, f, target, ig):
        fn = "plain" if not f.sep else {None: "sep", "no": "sep", "yes": "trailing", "maybe": "maybe_trailing"}[f.trail]
        g = [q.T, f.inner, target] + ([f.sep] if f.sep else []) + [ig]
        return fn, "%s::<%s>(usize::MAX as int, %%s)" % (fn, ", ".join(g))
    def lemma(q, name, f, a, b, extra=""):
        """a lemma about the list grammar of f"""
        fn = "plain" if not f.sep else {None: "sep", "no": "sep", "yes": "trailing", "maybe": "maybe_trailing"}[f.trail]
        g = [q.T, f.inner] + a + ([f.sep] if f.sep else []) + b
        return "%s_%s::<%s>(usize::MAX as int, %%s);" % (fn, name, ", ".join(g))
    def ig(q, x): return "ig::<%s, %s>(%s)" % (q.T, q.Ip, x)
    def comps(q):
        out = []
        for st in q.steps:
            if st[0] == "fix": out.append((st[1], "ppre"))
            else:
                out.append((st[1].comp(), "pre")); out.append((st[1].comp(), "ppre"))
                if st[1].sep: out.append((st[1].sep, "ppre"))
        return out
    def val(q, at):
        """the values of the fields, as a tuple"""
        v = []
        for k, st in enumerate(q.steps):
            if st[0] == "one": v.append("<%s as TryInto<%s>>::conv(<%s as Parse<%s>>::val(%s))->0" % (st[1].comp(), st[1].ty, st[1].comp(), q.T, at(k)))
            if st[0] == "list": v.append(q.lspec(st[1], st[1].ty, q.Ip)[1] % at(k) + ".vals")
        return v
    def emit_ignore(q, o, area_p, area_k):
        """the type whose parser skips ignored items: declared anew inside parse and inside peek"""
        T = q.T
        for I, area in ((q.Ip, area_p), (q.Ik, area_k)):
            o("pub struct %s;" % I, "impl Abs for %s { type V = (); open spec fn abs(&self) -> () { () } }" % I)
            pk = " || ".join("<%s as Parse<%s>>::pk(s)" % (i, T) for i in q.ignore) or "false"
            pkr = ""
            pz = ""
            for i in q.ignore:
                pkr += "if <%s as Parse<%s>>::pk(s) { <%s as Parse<%s>>::pkr(s) } else " % (i, T, i, T)
                pz += "if <%s as Parse<%s>>::pk(s) { <%s as Parse<%s>>::pkr(s).len() >= s.len() } else " % (i, T, i, T)
            pkr += "{ s }"; pz += "{ false }"
            ppre = " && ".join("<%s as Parse<%s>>::ppre() && (mode_b() || progress_pk::<%s, %s>())" % (i, T, T, i) for i in q.ignore) or "true"
            laws = " ".join("<%s as Parse<%s>>::law(s);" % (i, T) for i in q.ignore)
            o("//@area " + area)
            o("//@impl impl%s Parse<%s> for __ParseIgnore => impl%s Parse<%s> for %s" % (q.g, T, q.g, T, I))
            o("""    open spec fn pre() -> bool { false }
    open spec fn ppre() -> bool { %(ppre)s }
    open spec fn ok(s: Seq<%(T)s>) -> bool { arbitrary() }
    open spec fn rest(s: Seq<%(T)s>) -> Seq<%(T)s> { s }
    open spec fn val(s: Seq<%(T)s>) -> () { () }
    open spec fn err(s: Seq<%(T)s>) -> ErrV { arbitrary() }
    open spec fn pk(s: Seq<%(T)s>) -> bool { %(pk)s }
    open spec fn pkr(s: Seq<%(T)s>) -> Seq<%(T)s> { %(pkr)s }
    open spec fn pzero(s: Seq<%(T)s>) -> bool { %(pz)s }
    proof fn law(s: Seq<%(T)s>) { %(laws)s }
    //@fn fn parse<B: Buffer<%(T)s>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<%(T)s>>(input: &mut B) -> (r: bool)
    //@entry
        proof { %(el)s }
    //@end
//@endimpl""" % dict(T=T, ppre=ppre, pk=pk, pkr=pkr, pz=pz, laws=laws, el=laws.replace("(s)", "(input.view())")))
        o("""pub proof fn %(id)s_same%(g)s(s: Seq<%(T)s>)
    ensures many_pkr::<%(T)s, %(Ik)s>(s) == many_pkr::<%(T)s, %(Ip)s>(s), many_pzero::<%(T)s, %(Ik)s>(s) == many_pzero::<%(T)s, %(Ip)s>(s)
    decreases s.len()
{ if <%(Ip)s as Parse<%(T)s>>::pk(s) && <%(Ip)s as Parse<%(T)s>>::pkr(s).len() < s.len() { %(id)s_same%(tf)s(<%(Ip)s as Parse<%(T)s>>::pkr(s)); } }
pub proof fn %(id)s_sames%(g)s()
    ensures forall|s: Seq<%(T)s>| #[trigger] many_pkr::<%(T)s, %(Ik)s>(s) == many_pkr::<%(T)s, %(Ip)s>(s), forall|s: Seq<%(T)s>| #[trigger] many_pzero::<%(T)s, %(Ik)s>(s) == many_pzero::<%(T)s, %(Ip)s>(s)
{ assert forall|s: Seq<%(T)s>| #[trigger] many_pzero::<%(T)s, %(Ik)s>(s) == many_pzero::<%(T)s, %(Ip)s>(s) by { %(id)s_same%(tf)s(s) } assert forall|s: Seq<%(T)s>| #[trigger] many_pkr::<%(T)s, %(Ik)s>(s) == many_pkr::<%(T)s, %(Ip)s>(s) by { %(id)s_same%(tf)s(s) } }""" % dict(id=q.id, T=T, g=q.g, tf=q.tf, Ip=q.Ip, Ik=q.Ik))
    def emit_steps(q, o):
        """where the input stands after each part, for parse (p) and for peek (k); whether part n succeeds"""
        T, g, tf, id = q.T, q.g, q.tf, q.id
        sig = "%s(s: Seq<%s>) -> " % (g, T)
        zp = []; zk = []
        o("pub open spec fn %s_p0%sSeq<%s> { s }" % (id, sig, T), "pub open spec fn %s_k0%sSeq<%s> { s }" % (id, sig, T))
        for n, st in enumerate(q.steps):
            P = "%s_p%d%s(s)" % (id, n, tf); K = "%s_k%d%s(s)" % (id, n, tf)
            if st[0] == "fix":
                C = "<%s as Parse<%s>>" % (st[1], T)
                ok, nx, kok, knx = "%s::pk(%s)" % (C, P), "%s::pkr(%s)" % (C, P), "%s::pk(%s)" % (C, K), "%s::pkr(%s)" % (C, K)
                err = "ErrV::Fmt(\"%s\"@, seq![])" % esc(st[2])
            elif st[0] == "one":
                f = st[1]; C = "<%s as Parse<%s>>" % (f.comp(), T); cv = "<%s as TryInto<%s>>" % (f.comp(), f.ty)
                ok = "%s::ok(%s) && %s::conv(%s::val(%s)) is Some" % (C, P, cv, C, P); nx = "%s::rest(%s)" % (C, P)
                kok, knx = "%s::pk(%s)" % (C, K), "%s::pkr(%s)" % (C, K)
                err = "if !%s::ok(%s) { ErrV::Wrap(\"%s\"@, seq![], Box::new(%s::err(%s))) } else { %s::cerr(%s::val(%s)) }" % (C, P, esc(st[2]), C, P, cv, C, P)
            else:
                f = st[1]; l = q.lspec(f, f.ty, q.Ip)[1] % P; lk = q.lspec(f, f.inner, q.Ip)[1] % K
                ok, nx, kok, knx, err = l + ".ok", l + ".rest", lk + ".ok", lk + ".rest", l + ".err"
            o("pub open spec fn %s_ok%d%sbool { %s }" % (id, n, sig, ok), "pub open spec fn %s_p%d%sSeq<%s> { %s }" % (id, n + 1, sig, T, q.ig(nx)),
              "pub open spec fn %s_pk%d%sbool { %s }" % (id, n, sig, kok), "pub open spec fn %s_k%d%sSeq<%s> { %s }" % (id, n + 1, sig, T, q.ig(knx)),
              "pub open spec fn %s_e%d%sErrV { %s }" % (id, n, sig, err))
            # parts that match without consuming: the component's own, or the ignored items behind it
            mz = "many_pzero::<%s, %s>(%%s)" % (T, q.Ip)
            if st[0] == "list":
                zp.append("%s_ok%d%s(s) && %s" % (id, n, tf, mz % nx)); zk.append("%s_pk%d%s(s) && %s" % (id, n, tf, mz % knx))
            else:
                zp.append("%s::%s(%s) || %s_ok%d%s(s) && %s" % (C, "pzero" if st[0] == "fix" else "zero", P, id, n, tf, mz % nx)); zk.append("%s::pzero(%s) || %s_pk%d%s(s) && %s" % (C, K, id, n, tf, mz % knx))
        N = len(q.steps)
        o("pub open spec fn %s_ok%sbool { %s }" % (id, sig, " && ".join("%s_ok%d%s(s)" % (id, n, tf) for n in range(N)) or "true"))
        o("pub open spec fn %s_pk%sbool { %s }" % (id, sig, " && ".join("%s_pk%d%s(s)" % (id, n, tf) for n in range(N)) or "true"))
        o("pub open spec fn %s_rest%sSeq<%s> { %s_p%d%s(s) }" % (id, sig, T, id, N, tf), "pub open spec fn %s_pkr%sSeq<%s> { %s_k%d%s(s) }" % (id, sig, T, id, N, tf))
        for w, zs, okn in (("zero", zp, "ok"), ("pzero", zk, "pk")):
            o("pub open spec fn %s_%s%sbool { %s }" % (id, w, sig, "".join("if %s { true } else if !%s_%s%d%s(s) { false } else " % (z, id, okn, n, tf) for n, z in enumerate(zs)) + "{ false }"))
        e = ""
        for n in range(N): e += "if !%s_ok%d%s(s) { %s_e%d%s(s) } else " % (id, n, tf, id, n, tf)
        o("pub open spec fn %s_err%sErrV { %s{ arbitrary() } }" % (id, sig, e))
        pre = ["<%s as Parse<%s>>::%s()" % (c, T, w) for c, w in q.comps()] + ["<%s as Parse<%s>>::ppre() && (mode_b() || progress_pk::<%s, %s>())" % (i, T, T, i) for i in q.ignore]
        o("pub open spec fn %s_pre%s() -> bool { %s }" % (id, g, " && ".join(dict.fromkeys(pre)) or "true"))
        # never past the end
        for w, okn, st_ in (("p", "ok", q.Ip), ("k", "pk", q.Ip)):
            b = []
            for n, st in enumerate(q.steps):
                at = "%s_%s%d%s(s)" % (id, w, n, tf)
                if st[0] == "fix": b.append("<%s as Parse<%s>>::law(%s); many_len::<%s, %s>(<%s as Parse<%s>>::pkr(%s));" % (st[1], T, at, T, q.Ip, st[1], T, at))
                elif st[0] == "one":
                    c = st[1].comp(); r = "rest" if w == "p" else "pkr"
                    b.append("<%s as Parse<%s>>::law(%s); many_len::<%s, %s>(<%s as Parse<%s>>::%s(%s));" % (c, T, at, T, q.Ip, c, T, r, at))
                else:
                    tgt = st[1].ty if w == "p" else st[1].inner
                    b.append(q.lemma("len", st[1], [tgt], [q.Ip]) % at + " many_len::<%s, %s>(%s.rest);" % (T, q.Ip, q.lspec(st[1], tgt, q.Ip)[1] % at))
            o("pub proof fn %s_len_%s%s(s: Seq<%s>) ensures %s_%s%s(s) ==> %s_%s%s(s).len() <= s.len()\n{ %s }" % (id, w, g, T, id, okn, tf, id, "rest" if w == "p" else "pkr", tf, "\n  ".join(b)))
        # agreement
        b = []
        for n, st in enumerate(q.steps):
            at = "%s_p%d%s(s)" % (id, n, tf)
            if st[0] == "one": b.append("assert(agree_at::<%s, %s>(%s)); assert(<%s as TryInto<%s>>::conv(<%s as Parse<%s>>::val(%s)) is Some);" % (T, st[1].comp(), at, st[1].comp(), st[1].ty, st[1].comp(), T, at))
            if st[0] == "list": b.append(q.lemma("total", st[1], [st[1].ty], [q.Ip]) % at)
        o("pub proof fn %s_agree%s(s: Seq<%s>) requires %s ensures %s_pk%s(s) == %s_ok%s(s), %s_ok%s(s) ==> %s_rest%s(s) == %s_pkr%s(s)\n{ %s }" % (
            id, g, T, ", ".join(q.agree_req()) or "true", id, tf, id, tf, id, tf, id, tf, id, tf, "\n  ".join(b)))
    def agree_req(q):
        r = []
        for st in q.steps:
            if st[0] != "fix":
                r.append("agree::<%s, %s>()" % (q.T, st[1].comp()))
                r.append("total_::<%s, %s>()" % (st[1].comp(), st[1].ty))
        return list(dict.fromkeys(r))
    def entry(q, peek):
        b = []
        if q.ignore: b.append("assert(mode_b() || progress_pk::<%s, %s>()) by { %s }" % (q.T, q.Ik if peek else q.Ip, "if !mode_b() { assert forall|s: Seq<%s>| #[trigger] <%s as Parse<%s>>::pk(s) implies <%s as Parse<%s>>::pkr(s).len() < s.len() by { %s } }" % (
            q.T, q.Ik if peek else q.Ip, q.T, q.Ik if peek else q.Ip, q.T, " ".join("assert(progress_pk::<%s, %s>()); if <%s as Parse<%s>>::pk(s) { }" % (q.T, i, i, q.T) for i in q.ignore))))
        b.append("many_twice::<%s, %s>();" % (q.T, q.Ik if peek else q.Ip))
        if peek:
            b.append("%s_sames%s();" % (q.id, q.tf))
            for n, st in enumerate(q.steps):
                if st[0] == "list": b.append(q.lemma("cong", st[1], [st[1].inner], [q.Ik, q.Ip]) % ("%s_k%d%s(input.view())" % (q.id, n, q.tf)))
        return "\n        ".join(b)

def inherent(o, q, pname, kname, V):
    T, id, tf = q.T, q.id, q.tf
    gen = "<T, B: Buffer<T>>" if not q.pt else "<B: Buffer<%s>>" % T
    o("""    //@fn fn %(pn)s%(gen)s(input: &mut B) -> (r: Result<Self>)
        requires old(input).wf(), %(id)s_pre%(tf)s()
        ensures
            final(input).wf(), // @clause frame
            final(input).ctx() == old(input).ctx(), // @clause frame
            r is Ok <==> %(id)s_ok%(tf)s(old(input).view()), // @clause verdict
            r is Ok ==> final(input).view() == %(id)s_rest%(tf)s(old(input).view()), // @clause rest
            r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
            r is Ok ==> r->Ok_0.abs() == %(V)s, // @clause value
            mode_b() ==> !%(id)s_zero%(tf)s(old(input).view()), // @clause zero
    //@opts ren:__ParseIgnore=%(Ip)s
    //@entry
        proof { %(ep)s }
    //@end
    //@fn fn %(kn)s%(gen)s(input: &mut B) -> (r: bool)
        requires old(input).wf(), %(id)s_pre%(tf)s()
        ensures
            final(input).wf(), // @clause frame
            final(input).ctx() == old(input).ctx(), // @clause frame
            r == %(id)s_pk%(tf)s(old(input).view()), // @clause verdict
            r ==> final(input).view() == %(id)s_pkr%(tf)s(old(input).view()), // @clause rest
            r ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
            mode_b() ==> !%(id)s_pzero%(tf)s(old(input).view()), // @clause zero
    //@opts ren:__ParseIgnore=%(Ik)s
    //@entry
        proof { %(ek)s }
    //@end""" % dict(pn=pname, kn=kname, gen=gen, id=id, tf=tf, V=V, Ip=q.Ip, Ik=q.Ik, ep=q.entry(False), ek=q.entry(True)))

def tup(xs): return "()" if not xs else "(%s,)" % xs[0] if len(xs) == 1 else "(%s)" % ", ".join(xs)
def vty(f): return "Seq<<%s as Abs>::V>" % f.ty if f.inner else "<%s as Abs>::V" % f.ty
def acc(f): return "abs_seq(%s@)" if f.inner else "%s.abs()"

def shape(o, s, methods):
    T = s.parse_type or "T"; g = "" if s.parse_type else "<T>"; tf = "" if s.parse_type else "::<T>"
    n = s.name
    o("// ---------------------------------------------------------------- " + n)
    for l in shapes.source(s).split("\n"): o("//   " + l)
    o("//@area derive", "//@struct " + n)
    if s.kind != "enum":
        q = Seqn(n, n, s.prefix, s.suffix, s.fields, s.ignore, "struct", n, s.parse_type)
        acs = [acc(f) % ("self." + (f.name if f.name else str(i))) for i, f in enumerate(s.fields)]
        o("impl Abs for %s { type V = %s; open spec fn abs(&self) -> Self::V { %s } }" % (n, tup([vty(f) for f in s.fields]), tup(acs)))
        q.emit_ignore(o, "derive/%s::parse" % n, "derive/%s::peek" % n)
        q.emit_steps(o)
        val = tup(q.val(lambda k: "%s_p%d%s(s)" % (n, k, tf)))
        body = dict(pre="%s_pre%s()" % (n, tf), ok="%s_ok%s(s)" % (n, tf), rest="%s_rest%s(s)" % (n, tf), val=val, err="%s_err%s(s)" % (n, tf), pk="%s_pk%s(s)" % (n, tf), pkr="%s_pkr%s(s)" % (n, tf), zero="%s_zero%s(s)" % (n, tf), pzero="%s_pzero%s(s)" % (n, tf),
                    law="%s_len_p%s(s); %s_len_k%s(s);" % (n, tf, n, tf), ep=q.entry(False), ek=q.entry(True))
        req = q.agree_req(); agree = "%s_agree%s(s);" % (n, tf)
        subs = []
    else:
        vn = n + "_V"
        subs = []
        for i, v in enumerate(s.variants):
            qi = Seqn("%s_v%d" % (n, i), n, v.prefix, v.suffix, v.fields, v.ignore + s.ignore, {"unit": "unit variant", "tuple": "tuple variant", "named": "struct variant"}[v.kind], v.name, s.parse_type)
            subs.append((v, qi))
        o("pub enum %s { %s }" % (vn, ", ".join("v%d(%s)" % (i, tup([vty(f) for f in v.fields])) for i, v in enumerate(s.variants))))
        arms = []
        for i, v in enumerate(s.variants):
            if v.kind == "unit": pat = "%s::%s" % (n, v.name)
            elif v.kind == "named": pat = "%s::%s { %s }" % (n, v.name, ", ".join(f.name for f in v.fields))
            else: pat = "%s::%s(%s)" % (n, v.name, ", ".join("f%d" % k for k in range(len(v.fields))))
            arms.append("%s => %s::v%d(%s)" % (pat, vn, i, tup([acc(f) % (f.name or "f%d" % k) for k, f in enumerate(v.fields)])))
        o("impl Abs for %s { type V = %s; open spec fn abs(&self) -> %s { match self { %s } } }" % (n, vn, vn, ", ".join(arms)))
        for i, (v, qi) in enumerate(subs):
            pn, kn = methods[n][i]
            qi.emit_ignore(o, "derive/%s::%s" % (n, pn), "derive/%s::%s" % (n, kn))
            qi.emit_steps(o)
            o("//@area derive", "//@impl impl %s" % n)
            V = "%s::v%d(%s)" % (vn, i, tup(qi.val(lambda k: "%s_p%d%s(old(input).view())" % (qi.id, k, tf))))
            inherent(o, qi, pn, kn, V)
            o("//@endimpl")
        # the enum: prefix, the first variant that parses, suffix
        o2 = Seqn(n, n, s.prefix, None, [], s.ignore, "enum", n, s.parse_type)
        o2.emit_ignore(o, "derive/%s::parse" % n, "derive/%s::peek" % n)
        sig = "%s(s: Seq<%s>) -> " % (g, T)
        pfx = "<%s as Parse<%s>>" % (s.prefix, T); sfx = "<%s as Parse<%s>>" % (s.suffix, T)
        o("pub open spec fn %s_s0%sSeq<%s> { %s }" % (n, sig, T, o2.ig("%s::pkr(s)" % pfx) if s.prefix else "s"))
        def first(w, r):  # chain over the variants at s0
            return "".join("if %s_v%d_%s%s(%s_s0%s(s)) { %s } else " % (n, i, w, tf, n, tf, r(i)) for i in range(len(subs)))
        at = "%s_s0%s(s)" % (n, tf)
        o("pub open spec fn %s_s1%sSeq<%s> { %s{ s } }" % (n, sig, T, first("ok", lambda i: "%s_v%d_rest%s(%s)" % (n, i, tf, at))))
        o("pub open spec fn %s_t1%sSeq<%s> { %s{ s } }" % (n, sig, T, first("pk", lambda i: "%s_v%d_pkr%s(%s)" % (n, i, tf, at))))
        o("pub open spec fn %s_any%sbool { %s }" % (n, sig, " || ".join("%s_v%d_ok%s(%s)" % (n, i, tf, at) for i in range(len(subs)))))
        o("pub open spec fn %s_anyk%sbool { %s }" % (n, sig, " || ".join("%s_v%d_pk%s(%s)" % (n, i, tf, at) for i in range(len(subs)))))
        s1, t1 = "%s_s1%s(s)" % (n, tf), "%s_t1%s(s)" % (n, tf)
        p0 = "%s::pk(s) && " % pfx if s.prefix else ""
        ok = p0 + "%s_any%s(s)" % (n, tf) + (" && %s::pk(%s)" % (sfx, s1) if s.suffix else "")
        pk = p0 + "%s_anyk%s(s)" % (n, tf) + (" && %s::pk(%s)" % (sfx, t1) if s.suffix else "")
        rest = o2.ig("%s::pkr(%s)" % (sfx, s1)) if s.suffix else s1
        pkr = o2.ig("%s::pkr(%s)" % (sfx, t1)) if s.suffix else t1
        val = first("ok", lambda i: "%s::v%d(%s)" % (vn, i, tup(subs[i][1].val(lambda k: "%s_v%d_p%d%s(%s)" % (n, i, k, tf, at))))) + "{ arbitrary() }"
        err = ("if !%s::pk(s) { ErrV::Fmt(\"failed to parse prefix for enum `%s`\"@, seq![]) } else " % (pfx, n) if s.prefix else "") + \
              "if !%s_any%s(s) { ErrV::Fmt(\"no variants of %s could be parsed\"@, seq![]) } else " % (n, tf, n) + \
              ("if !%s::pk(%s) { ErrV::Fmt(\"failed to parse suffix for enum `%s`\"@, seq![]) } else " % (sfx, s1, n) if s.suffix else "") + "{ arbitrary() }"
        pre = ["%s_pre%s()" % (qi.id, tf) for _, qi in subs] + ["<%s as Parse<%s>>::ppre()" % (x, T) for x in (s.prefix, s.suffix) if x] + ["<%s as Parse<%s>>::ppre() && (mode_b() || progress_pk::<%s, %s>())" % (i, T, T, i) for i in s.ignore]
        law = ("%s::law(s); many_len::<%s, %s>(%s::pkr(s)); " % (pfx, T, o2.Ip, pfx) if s.prefix else "") + " ".join("%s_len_p%s(%s); %s_len_k%s(%s);" % (qi.id, tf, at, qi.id, tf, at) for _, qi in subs)
        if s.suffix: law += " ".join("%s::law(%s); many_len::<%s, %s>(%s::pkr(%s));" % (sfx, x, T, o2.Ip, sfx, x) for x in (s1, t1))
        mz = "many_pzero::<%s, %s>(%%s)" % (T, o2.Ip)
        def chain(z, okw, end):
            tr = "".join("if %s_v%d_%s%s(%s) { true } else if %s_v%d_%s%s(%s) { %s } else " % (n, i, z, tf, at, n, i, okw, tf, at, end) for i in range(len(subs))) + "{ false }"
            return ("if %s::pzero(s) { true } else if !%s::pk(s) { false } else if %s { true } else " % (pfx, pfx, mz % (pfx + "::pkr(s)")) + "{ %s }" % tr) if s.prefix else tr
        zero = chain("zero", "ok", "%s::pzero(%s) || %s::pk(%s) && %s" % (sfx, s1, sfx, s1, mz % ("%s::pkr(%s)" % (sfx, s1))) if s.suffix else "false")
        pzero = chain("pzero", "pk", "%s::pzero(%s) || %s::pk(%s) && %s" % (sfx, t1, sfx, t1, mz % ("%s::pkr(%s)" % (sfx, t1))) if s.suffix else "false")
        body = dict(zero=zero, pzero=pzero, pre=" && ".join(pre), ok=ok, rest=rest, val=val, err=err, pk=pk, pkr=pkr, law=law, ep=o2.entry(False), ek=o2.entry(True))
        req = list(dict.fromkeys(sum([qi.agree_req() for _, qi in subs], [])))
        agree = " ".join("%s_agree%s(%s);" % (qi.id, tf, at) for _, qi in subs)
        q = o2
    o("//@area derive")
    o("""//@impl impl%(g)s Parse<%(T)s> for %(n)s
    open spec fn pre() -> bool { %(pre)s }
    open spec fn ppre() -> bool { %(pre)s }
    open spec fn ok(s: Seq<%(T)s>) -> bool { %(ok)s }
    open spec fn rest(s: Seq<%(T)s>) -> Seq<%(T)s> { %(rest)s }
    open spec fn val(s: Seq<%(T)s>) -> Self::V { %(val)s }
    open spec fn err(s: Seq<%(T)s>) -> ErrV { %(err)s }
    open spec fn pk(s: Seq<%(T)s>) -> bool { %(pk)s }
    open spec fn pkr(s: Seq<%(T)s>) -> Seq<%(T)s> { %(pkr)s }
    open spec fn zero(s: Seq<%(T)s>) -> bool { %(zero)s }
    open spec fn pzero(s: Seq<%(T)s>) -> bool { %(pzero)s }
    proof fn law(s: Seq<%(T)s>) { %(law)s }
    //@fn fn parse<B: Buffer<%(T)s>>(input: &mut B) -> (r: Result<Self>)
    //@opts ren:__ParseIgnore=%(Ip)s
    //@entry
        proof { %(ep)s }
    //@end
    //@fn fn peek<B: Buffer<%(T)s>>(input: &mut B) -> (r: bool)
    //@opts ren:__ParseIgnore=%(Ik)s
    //@entry
        proof { %(ek)s }
    //@end
//@endimpl""" % dict(n=n, T=T, g=g, Ip=q.Ip, Ik=q.Ik, **body))
    identity(o, n)
    o("//@thm thm_agree_%s C15" % n, "/// C15: %s's peek and parse agree when those of its parts do and conversions cannot fail" % n)
    o("pub proof fn thm_agree_%s%s() requires %s ensures agree::<%s, %s>()\n{ assert forall|s: Seq<%s>| agree_at::<%s, %s>(s) by { %s } }" % (n, g, ", ".join(req) or "true", T, n, T, T, n, agree), "//@endthm")

def write(shps, methods):
    o = Out()
    o("// generated by vf/dspec.py", "pub mod lexemes {", "use super::*;", "//@area derive")
    lexemes(o, shapes.LEX, shapes.CONV)
    o("}", "pub use lexemes::*;")
    for s in shps:
        o("pub mod sh_%s {" % s.name, "use super::*;")
        shape(o, s, methods)
        o("}", "pub use sh_%s::*;" % s.name)
    return o.text()
