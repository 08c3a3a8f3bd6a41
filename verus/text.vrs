// ================================================================ text parsers (nommy/src/text)
//@area text
pub mod text {
use super::*;
broadcast use {skip_skip, skip_zero, seq_abs};
/// length of the longest prefix of `s` whose items are all in (`inn`) or all outside `set`
pub open spec fn run(s: Seq<char>, set: Seq<char>, inn: bool) -> nat decreases s.len() {
    if s.len() > 0 && set.contains(s[0]) == inn { 1 + run(s.skip(1), set, inn) } else { 0 }
}
pub proof fn run_len(s: Seq<char>, set: Seq<char>, inn: bool)
    ensures run(s, set, inn) <= s.len()
    decreases s.len()
{ if s.len() > 0 && set.contains(s[0]) == inn { run_len(s.skip(1), set, inn) } }
/// it is the longest one
pub proof fn run_longest(s: Seq<char>, set: Seq<char>, inn: bool)
    ensures run(s, set, inn) <= s.len(), forall|i: int| 0 <= i < run(s, set, inn) ==> set.contains(#[trigger] s[i]) == inn,
        run(s, set, inn) < s.len() ==> set.contains(s[run(s, set, inn) as int]) != inn,
    decreases s.len()
{
    if s.len() > 0 && set.contains(s[0]) == inn {
        let t = s.skip(1);
        run_longest(t, set, inn);
        assert forall|i: int| 0 <= i < run(s, set, inn) implies set.contains(#[trigger] s[i]) == inn by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
/// one step of a scan that has taken `k` items of `s0`
pub proof fn run_step(s0: Seq<char>, k: int, set: Seq<char>, inn: bool)
    requires 0 <= k <= s0.len()
    ensures
        run(s0.skip(k), set, inn) == (if k < s0.len() && set.contains(s0[k]) == inn { 1 + run(s0.skip(k + 1), set, inn) } else { 0 }),
        k < s0.len() ==> s0.take(k).push(s0[k]) == s0.take(k + 1) && s0.skip(k)[0] == s0[k] && skip(s0.skip(k), 1) == s0.skip(k + 1),
        k == 0 ==> s0.take(k) == Seq::<char>::empty() && s0.skip(k) == s0,
{
    if k < s0.len() { assert(s0.skip(k).skip(1) =~= s0.skip(k + 1)); assert(s0.take(k).push(s0[k]) =~= s0.take(k + 1)); }
    if k == 0 { assert(s0.take(k) =~= Seq::<char>::empty()); assert(s0.skip(k) =~= s0); }
}

//@struct Tag
impl<TAG: StrConst> Abs for Tag<TAG> { type V = (); open spec fn abs(&self) -> () { () } }
//@impl impl<const TAG: &'static str> Parse<char> for Tag<TAG> => impl<TAG: StrConst> Parse<char> for Tag<TAG>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { take(s, TAG::spec().len() as int) == TAG::spec() }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, TAG::spec().len() as int) }
    open spec fn val(s: Seq<char>) -> () { () }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("failed to parse tag {:?}, found {:?}"), seq![TAG::dvs(), DV::Str(take(s, TAG::spec().len() as int))]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
/// a tag matches exactly the inputs that start with it
pub proof fn tag_exact<TAG: StrConst>(s: Seq<char>)
    ensures <Tag<TAG> as Parse<char>>::ok(s) <==> (exists|r: Seq<char>| s == TAG::spec() + r),
        <Tag<TAG> as Parse<char>>::ok(s) ==> s == TAG::spec() + <Tag<TAG> as Parse<char>>::rest(s),
{
    let t = TAG::spec();
    if <Tag<TAG> as Parse<char>>::ok(s) { assert(s =~= t + skip(s, t.len() as int)); }
    if exists|r: Seq<char>| s == t + r { let r = choose|r: Seq<char>| s == t + r; assert(s.take(t.len() as int) =~= t); }
}

//@struct OneOf
impl<CHARS: StrConst> Abs for OneOf<CHARS> { type V = char; open spec fn abs(&self) -> char { self.0 } }
//@impl impl<const CHARS: &'static str> From<OneOf<CHARS>> for char => impl<CHARS: StrConst> From<OneOf<CHARS>> for char
    open spec fn from_post(v: OneOf<CHARS>, r: Self) -> bool { r == v.abs() }
    //@fn fn from(v: OneOf<CHARS>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const CHARS: &'static str> Parse<char> for OneOf<CHARS> => impl<CHARS: StrConst> Parse<char> for OneOf<CHARS>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { s.len() > 0 && CHARS::spec().contains(s[0]) }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, 1) }
    open spec fn val(s: Seq<char>) -> char { s[0] }
    open spec fn err(s: Seq<char>) -> ErrV {
        if s.len() > 0 { ErrV::Fmt(lit_("error parsing one of {:?}, found {:?}"), seq![CHARS::dvs(), DV::Chr(s[0])]) }
        else { ErrV::Fmt(lit_("error parsing one of {:?}, reached EOF"), seq![CHARS::dvs()]) }
    }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl

//@struct AnyOf
impl<CHARS: StrConst> Abs for AnyOf<CHARS> { type V = Seq<char>; open spec fn abs(&self) -> Seq<char> { self.0@ } }
//@impl impl<const CHARS: &'static str> From<AnyOf<CHARS>> for String => impl<CHARS: StrConst> From<AnyOf<CHARS>> for String
    open spec fn from_post(v: AnyOf<CHARS>, r: Self) -> bool { r@ == v.abs() }
    //@fn fn from(v: AnyOf<CHARS>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const CHARS: &'static str> Parse<char> for AnyOf<CHARS> => impl<CHARS: StrConst> Parse<char> for AnyOf<CHARS>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { true }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, run(s, CHARS::spec(), true) as int) }
    open spec fn val(s: Seq<char>) -> Seq<char> { s.take(run(s, CHARS::spec(), true) as int) }
    open spec fn err(s: Seq<char>) -> ErrV { arbitrary() }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), true); run_len(s0, CHARS::spec(), true);  }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), true) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            $acc@ == s0.take(s0.len() - input.view().len()),
        ensures run(input.view(), CHARS::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), true); }
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), true); run_len(s0, CHARS::spec(), true); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), true) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),

        ensures run(input.view(), CHARS::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), true); }
    //@end
//@endimpl

//@struct WhileNot1
impl<CHARS: StrConst> Abs for WhileNot1<CHARS> { type V = Seq<char>; open spec fn abs(&self) -> Seq<char> { self.0@ } }
//@impl impl<const CHARS: &'static str> From<WhileNot1<CHARS>> for String => impl<CHARS: StrConst> From<WhileNot1<CHARS>> for String
    open spec fn from_post(v: WhileNot1<CHARS>, r: Self) -> bool { r@ == v.abs() }
    //@fn fn from(v: WhileNot1<CHARS>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> => impl<CHARS: StrConst> Parse<char> for WhileNot1<CHARS>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { run(s, CHARS::spec(), false) > 0 }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, run(s, CHARS::spec(), false) as int) }
    open spec fn val(s: Seq<char>) -> Seq<char> { s.take(run(s, CHARS::spec(), false) as int) }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("no characters found"), seq![]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), false); run_len(s0, CHARS::spec(), false); utf8_zero(); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), false) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), false),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            $acc@ == s0.take(s0.len() - input.view().len()),
        ensures run(input.view(), CHARS::spec(), false) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), false); }
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), false); run_len(s0, CHARS::spec(), false); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), false) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), false),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            found == (s0.len() > input.view().len()),
        ensures run(input.view(), CHARS::spec(), false) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), false); }
    //@end
//@endimpl

//@struct AnyOf1
impl<CHARS: StrConst> Abs for AnyOf1<CHARS> { type V = Seq<char>; open spec fn abs(&self) -> Seq<char> { self.0@ } }
//@impl impl<const CHARS: &'static str> From<AnyOf1<CHARS>> for String => impl<CHARS: StrConst> From<AnyOf1<CHARS>> for String
    open spec fn from_post(v: AnyOf1<CHARS>, r: Self) -> bool { r@ == v.abs() }
    //@fn fn from(v: AnyOf1<CHARS>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<const CHARS: &'static str> Parse<char> for AnyOf1<CHARS> => impl<CHARS: StrConst> Parse<char> for AnyOf1<CHARS>
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { run(s, CHARS::spec(), true) > 0 }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, run(s, CHARS::spec(), true) as int) }
    open spec fn val(s: Seq<char>) -> Seq<char> { s.take(run(s, CHARS::spec(), true) as int) }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("no characters found"), seq![]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), true); run_len(s0, CHARS::spec(), true); utf8_zero(); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), true) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            $acc@ == s0.take(s0.len() - input.view().len()),
        ensures run(input.view(), CHARS::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), true); }
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
        proof { run_step(s0, 0, CHARS::spec(), true); run_len(s0, CHARS::spec(), true); }
    //@loop 0
        invariant
            0 <= s0.len() - input.view().len(), input.view() == s0.skip(s0.len() - input.view().len()),
            run(s0, CHARS::spec(), true) == s0.len() - input.view().len() + run(input.view(), CHARS::spec(), true),
            input.wf(), input.ctx() == old(input).ctx(), s0 == old(input).view(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            s0.len() > input.view().len(),
        ensures run(input.view(), CHARS::spec(), true) == 0,
        decreases input.view().len()
    //@body 0
        proof { run_step(s0, s0.len() - input.view().len(), CHARS::spec(), true); }
    //@end
//@endimpl

//@impl impl<const CHARS: &'static str> TryFrom<AnyOf1<CHARS>> for usize => impl<CHARS: StrConst> TryFrom<AnyOf1<CHARS>> for usize
    type Error = <usize as FromStr>::Err;
    open spec fn tconv(v: Seq<char>) -> Option<usize> { <usize as FromStr>::of(v) }
    open spec fn tcerr(v: Seq<char>) -> ErrV { <usize as FromStr>::oerr(v) }
    //@fn fn try_from(v: AnyOf1<CHARS>) -> (r: Result<Self, Self::Error>)
    //@end
//@endimpl
//@struct LineEnding
impl Abs for LineEnding { type V = (); open spec fn abs(&self) -> () { () } }
/// number of characters of the line ending `s` starts with, 0 when there is none
pub open spec fn lineending_len(s: Seq<char>) -> int {
    if s.len() > 0 && s[0] == '\n' { 1 } else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { 2 } else { 0 }
}
//@impl impl Parse<char> for LineEnding
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { lineending_len(s) > 0 }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, lineending_len(s)) }
    open spec fn val(s: Seq<char>) -> () { () }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("could not parse line ending"), seq![]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
//@struct Space
impl Abs for Space { type V = (); open spec fn abs(&self) -> () { () } }
/// number of characters of the space or tab `s` starts with, 0 when there is none
pub open spec fn space_len(s: Seq<char>) -> int {
    if s.len() > 0 && (s[0] == ' ' || s[0] == '\t') { 1 } else { 0 }
}
//@impl impl Parse<char> for Space
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { space_len(s) > 0 }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, space_len(s)) }
    open spec fn val(s: Seq<char>) -> () { () }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("could not parse space"), seq![]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
//@struct WhiteSpace
impl Abs for WhiteSpace { type V = (); open spec fn abs(&self) -> () { () } }
/// number of characters of the whitespace `s` starts with, 0 when there is none
pub open spec fn whitespace_len(s: Seq<char>) -> int {
    if s.len() > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n') { 1 } else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { 2 } else { 0 }
}
//@impl impl Parse<char> for WhiteSpace
    open spec fn pre() -> bool { true }
    open spec fn ppre() -> bool { true }
    open spec fn ok(s: Seq<char>) -> bool { whitespace_len(s) > 0 }
    open spec fn rest(s: Seq<char>) -> Seq<char> { skip(s, whitespace_len(s)) }
    open spec fn val(s: Seq<char>) -> () { () }
    open spec fn err(s: Seq<char>) -> ErrV { ErrV::Fmt(lit_("could not parse whitespace"), seq![]) }
    open spec fn pk(s: Seq<char>) -> bool { Self::ok(s) }
    open spec fn pkr(s: Seq<char>) -> Seq<char> { Self::rest(s) }
    proof fn law(s: Seq<char>) { }
    //@fn fn parse<B: Buffer<char>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<char>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
} // mod text
