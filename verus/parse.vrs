// ================================================================ the Parse trait (nommy/src/lib.rs)
//@area core
//@trait Parse: fnparse(input:&mutimplBuffer<T>)->eyre::Result<Self>;fnpeek(input:&mutimplBuffer<T>)->bool{}
/// A parser is described by spec functions of the remaining input.
///   ok/rest/val/err: whether `parse` succeeds, what it leaves, the value it yields, what its error says
///   pk/pkr:          whether `peek` succeeds and what it leaves
///   pre/ppre:        what parse / peek need of the parsers they are built from
pub trait Parse<T>: Sized + Abs {
    spec fn pre() -> bool;
    spec fn ppre() -> bool;
    spec fn ok(s: Seq<T>) -> bool;
    spec fn rest(s: Seq<T>) -> Seq<T>;
    spec fn val(s: Seq<T>) -> Self::V;
    spec fn err(s: Seq<T>) -> ErrV;
    spec fn pk(s: Seq<T>) -> bool;
    spec fn pkr(s: Seq<T>) -> Seq<T>;
    /// on `s`, a part of parse / peek succeeds without consuming: with debug assertions that must be caught
    open spec fn zero(s: Seq<T>) -> bool { false }
    open spec fn pzero(s: Seq<T>) -> bool { false }
    proof fn law(s: Seq<T>)
        ensures Self::ok(s) ==> Self::rest(s).len() <= s.len(), Self::pk(s) ==> Self::pkr(s).len() <= s.len();
    fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
        requires old(input).wf(), Self::pre()
        ensures
            final(input).wf(), // @clause frame
            final(input).ctx() == old(input).ctx(), // @clause frame
            r is Ok <==> Self::ok(old(input).view()), // @clause verdict
            r is Ok ==> final(input).view() == Self::rest(old(input).view()), // @clause rest
            r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
            r is Ok ==> r->Ok_0.abs() == Self::val(old(input).view()), // @clause value
            r is Err ==> r->Err_0.view() == Self::err(old(input).view()), // @clause error
            mode_b() ==> !Self::zero(old(input).view()), // @clause zero
    ;
    fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
        requires old(input).wf(), Self::ppre()
        ensures
            final(input).wf(), // @clause frame
            final(input).ctx() == old(input).ctx(), // @clause frame
            r == Self::pk(old(input).view()), // @clause verdict
            r ==> final(input).view() == Self::pkr(old(input).view()), // @clause rest
            r ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
            mode_b() ==> !Self::pzero(old(input).view()), // @clause zero
    ;
}
/// the default body of `peek`, for every parser that keeps it
//@fn pub fn Parse__default__peek<T, P: Parse<T>, B: Buffer<T>>(input: &mut B) -> (r: bool)
    requires old(input).wf(), P::pre()
    ensures final(input).wf(), final(input).ctx() == old(input).ctx(),
        r == P::ok(old(input).view()), // @clause verdict
        r ==> final(input).view() == P::rest(old(input).view()), // @clause rest
        r ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
//@end

/// never succeeds without consuming
pub open spec fn progress_ok<T, P: Parse<T>>() -> bool { forall|s: Seq<T>| #[trigger] P::ok(s) ==> P::rest(s).len() < s.len() }
pub open spec fn progress_pk<T, P: Parse<T>>() -> bool { forall|s: Seq<T>| #[trigger] P::pk(s) ==> P::pkr(s).len() < s.len() }
/// peek and parse agree
pub open spec fn agree<T, P: Parse<T>>() -> bool { forall|s: Seq<T>| agree_at::<T, P>(s) }
pub open spec fn agree_at<T, P: Parse<T>>(s: Seq<T>) -> bool { P::pk(s) == P::ok(s) && (P::ok(s) ==> P::rest(s) == P::pkr(s)) }

// ---------------------------------------------------------------- parse, parse_terminated
//@fn pub fn parse<P: Parse<<I::Iter as Iterator>::Item>, I: IntoBuf>(iter: I) -> (r: Result<P>) where <I::Iter as Iterator>::Item: Clone
    requires iter.iwf_(), P::pre()
    ensures
        r is Ok <==> P::ok(iter.items_()), // @clause verdict
        r is Ok ==> r->Ok_0.abs() == P::val(iter.items_()), // @clause value
        r is Err ==> r->Err_0.view() == P::err(iter.items_()), // @clause error
//@end
//@fn pub fn parse_terminated<P: Parse<<I::Iter as Iterator>::Item>, I: IntoBuf>(iter: I) -> (r: Result<P>) where <I::Iter as Iterator>::Item: Clone
    requires iter.iwf_(), P::pre()
    ensures
        r is Ok <==> P::ok(iter.items_()) && P::rest(iter.items_()).len() == 0, // @clause verdict
        r is Ok ==> r->Ok_0.abs() == P::val(iter.items_()), // @clause value
        r is Err && !P::ok(iter.items_()) ==> r->Err_0.view() == P::err(iter.items_()), // @clause error
        r is Err && P::ok(iter.items_()) ==> r->Err_0.view() == ErrV::Fmt("input was not parsed completely"@, seq![]), // @clause error
//@end
