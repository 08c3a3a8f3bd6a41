// ================================================================ bytes parsers (nommy/src/bytes)
//@area bytes
pub mod bytes {
use super::*;
broadcast use {skip_skip, skip_zero, seq_abs};
/// length of the longest prefix of `s` whose items are all in (`inn`) or all outside `set`
pub open spec fn run(s: Seq<u8>, set: Seq<u8>, inn: bool) -> nat decreases s.len() {
    if s.len() > 0 && set.contains(s[0]) == inn { 1 + run(s.skip(1), set, inn) } else { 0 }
}
pub proof fn run_len(s: Seq<u8>, set: Seq<u8>, inn: bool)
    ensures run(s, set, inn) <= s.len()
    decreases s.len()
{ if s.len() > 0 && set.contains(s[0]) == inn { run_len(s.skip(1), set, inn) } }
/// it is the longest one
pub proof fn run_longest(s: Seq<u8>, set: Seq<u8>, inn: bool)
    ensures run(s, set, inn) <= s.len(), forall|i: int| 0 <= i < run(s, set, inn) ==> set.contains(#[trigger] s[i]) == inn,
        run(s, set, inn) < s.len() ==> set.contains(s[run(s, set, inn) as int]) != inn,
    decreases s.len()
{
    if s.len() > 0 && set.contains(s[0]) == inn {
        let t = s.skip(1);
        run_longest(t, set, inn);
        assert forall|i: int| 0 <= i < run(s, set, inn) implies set.contains(#[trigger] s[i]) == inn by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
/// one step of a scan that has taken `k` items of `s0`
pub proof fn run_step(s0: Seq<u8>, k: int, set: Seq<u8>, inn: bool)
    requires 0 <= k <= s0.len()
    ensures
        run(s0.skip(k), set, inn) == (if k < s0.len() && set.contains(s0[k]) == inn { 1 + run(s0.skip(k + 1), set, inn) } else { 0 }),
        k < s0.len() ==> s0.take(k).push(s0[k]) == s0.take(k + 1) && s0.skip(k)[0] == s0[k] && skip(s0.skip(k), 1) == s0.skip(k + 1),
        k == 0 ==> s0.take(k) == Seq::<u8>::empty() && s0.skip(k) == s0,
{
    if k < s0.len() { assert(s0.skip(k).skip(1) =~= s0.skip(k + 1)); assert(s0.take(k).push(s0[k]) =~= s0.take(k + 1)); }
    if k == 0 { assert(s0.take(k) =~= Seq::<u8>::empty()); assert(s0.skip(k) =~= s0); }
}

//@struct Tag
impl<TAG: BytesConst> Abs for Tag<TAG> { type V = (); open spec fn abs(&self) -> () { () } }
//@impl impl<const TAG: &'static [u8]> Parse<u8> for Tag<TAG> => impl<TAG: BytesConst> Parse<u8> for Tag<TAG>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<u8>) -> bool { take(s, TAG::spec().len() as int) == TAG::spec() }
    open spec fn rest(s: Seq<u8>) -> Seq<u8> { skip(s, TAG::spec().len() as int) }
    open spec fn val(s: Seq<u8>) -> () { () }
    open spec fn err(s: Seq<u8>) -> ErrV { ErrV::Fmt(lit_("failed to parse tag {:?}, found {:?}"), seq![TAG::dvs(), DV::Bytes(take(s, TAG::spec().len() as int))]) }
    open spec fn pk(s: Seq<u8>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<u8>) -> Seq<u8> { Self::rest(s) }
    proof fn law(s: Seq<u8>) { }
    //@fn fn parse<B: Buffer<u8>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<u8>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
/// a tag matches exactly the inputs that start with it
pub proof fn tag_exact<TAG: BytesConst>(s: Seq<u8>)
    ensures <Tag<TAG> as Parse<u8>>::ok(s) <==> (exists|r: Seq<u8>| s == TAG::spec() + r),
        <Tag<TAG> as Parse<u8>>::ok(s) ==> s == TAG::spec() + <Tag<TAG> as Parse<u8>>::rest(s),
{
    let t = TAG::spec();
    if <Tag<TAG> as Parse<u8>>::ok(s) { assert(s =~= t + skip(s, t.len() as int)); }
    if exists|r: Seq<u8>| s == t + r { let r = choose|r: Seq<u8>| s == t + r; assert(s.take(t.len() as int) =~= t); }
}

//@struct OneOf
impl<BYTES: BytesConst> Abs for OneOf<BYTES> { type V = u8; open spec fn abs(&self) -> u8 { self.0 } }
//@impl impl<const BYTES: &'static [u8]> From<OneOf<BYTES>> for u8 => impl<BYTES: BytesConst> From<OneOf<BYTES>> for u8
    open spec fn from_post(v: OneOf<BYTES>, r: Self) -> bool { r == v.abs() }
    //@fn fn from(v: OneOf<BYTES>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const BYTES: &'static [u8]> Parse<u8> for OneOf<BYTES> => impl<BYTES: BytesConst> Parse<u8> for OneOf<BYTES>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<u8>) -> bool { s.len() > 0 && BYTES::spec().contains(s[0]) }
    open spec fn rest(s: Seq<u8>) -> Seq<u8> { skip(s, 1) }
    open spec fn val(s: Seq<u8>) -> u8 { s[0] }
    open spec fn err(s: Seq<u8>) -> ErrV {
        if s.len() > 0 { ErrV::Fmt(lit_("error parsing one of {:?}, found {:?}"), seq![BYTES::dvs(), DV::Byte(s[0])]) }
        else { ErrV::Fmt(lit_("error parsing one of {:?}, reached EOF"), seq![BYTES::dvs()]) }
    }
    open spec fn pk(s: Seq<u8>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<u8>) -> Seq<u8> { Self::rest(s) }
    proof fn law(s: Seq<u8>) { }
    //@fn fn parse<B: Buffer<u8>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<u8>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl

//@struct AnyOf1
impl<BYTES: BytesConst> Abs for AnyOf1<BYTES> { type V = Seq<u8>; open spec fn abs(&self) -> Seq<u8> { self.0@ } }
//@impl impl<const BYTES: &'static [u8]> From<AnyOf1<BYTES>> for Vec<u8> => impl<BYTES: BytesConst> From<AnyOf1<BYTES>> for Vec<u8>
    open spec fn from_post(v: AnyOf1<BYTES>, r: Self) -> bool { r@ == v.abs() }
    //@fn fn from(v: AnyOf1<BYTES>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const BYTES: &'static [u8]> Parse<u8> for AnyOf1<BYTES> => impl<BYTES: BytesConst> Parse<u8> for AnyOf1<BYTES>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<u8>) -> bool { run(s, BYTES::spec(), true) > 0 }
    open spec fn rest(s: Seq<u8>) -> Seq<u8> { skip(s, run(s, BYTES::spec(), true) as int) }
    open spec fn val(s: Seq<u8>) -> Seq<u8> { s.take(run(s, BYTES::spec(), true) as int) }
    open spec fn err(s: Seq<u8>) -> ErrV { ErrV::Fmt(lit_("no characters found"), seq![]) }
    open spec fn pk(s: Seq<u8>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<u8>) -> Seq<u8> { Self::rest(s) }
    proof fn law(s: Seq<u8>) { }
    //@fn fn parse<B: Buffer<u8>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, BYTES::spec(), true); run_len(s0, BYTES::spec(), true);  }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, BYTES::spec(), true) == s0.len() - input.view().len() + run(input.view(), BYTES::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            $acc@ == s0.take(s0.len() - input.view().len()),
        ensures run(input.view(), BYTES::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), BYTES::spec(), true); }
    //@end
    //@fn fn peek<B: Buffer<u8>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, BYTES::spec(), true); run_len(s0, BYTES::spec(), true); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, BYTES::spec(), true) == s0.len() - input.view().len() + run(input.view(), BYTES::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            s0.len() > input.view().len(),
        ensures run(input.view(), BYTES::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), BYTES::spec(), true); }
    //@end
//@endimpl
} // mod bytes
