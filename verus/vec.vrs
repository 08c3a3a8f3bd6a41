// ================================================================ list helpers (nommy/src/vec.rs)
//@area vec
/// outcome of a list helper: whether it succeeds, the values, what it leaves, what the error says
pub struct LR<T, V> { pub ok: bool, pub vals: Seq<V>, pub rest: Seq<T>, pub err: ErrV }
pub open spec fn stop<T, V>(vals: Seq<V>, s: Seq<T>) -> LR<T, V> { LR { ok: true, vals, rest: s, err: arbitrary() } }
pub open spec fn fail<T, V>(e: ErrV) -> LR<T, V> { LR { ok: false, vals: arbitrary(), rest: arbitrary(), err: e } }
/// `vals` in front of a successful outcome
pub open spec fn before<T, V>(vals: Seq<V>, l: LR<T, V>) -> LR<T, V> { if l.ok { LR { vals: vals + l.vals, ..l } } else { l } }
/// skipping ignored items
pub open spec fn ig<T, Ignore: Parse<T>>(s: Seq<T>) -> Seq<T> { many_pkr::<T, Ignore>(s) }

/// what a list outcome may not do: skip past the end
pub open spec fn lr_in<T, V>(l: LR<T, V>, s: Seq<T>, n: int) -> bool { l.ok ==> l.rest.len() <= s.len() && l.vals.len() <= n }
/// elements, with ignored items between them
pub open spec fn plain_tail<T, P: Parse<T> + TryInto<Q>, Q: Abs, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> decreases n {
    let t = ig::<T, Ignore>(s);
    if n <= 0 || !P::ok(t) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(t)) is None { fail(<P as TryInto<Q>>::cerr(P::val(t))) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(t))->0], plain_tail::<T, P, Q, Ignore>(n - 1, P::rest(t))) }
}
pub open spec fn plain<T, P: Parse<T> + TryInto<Q>, Q: Abs, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> {
    if n <= 0 || !P::ok(s) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(s)) is None { fail(<P as TryInto<Q>>::cerr(P::val(s))) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(s))->0], plain_tail::<T, P, Q, Ignore>(n - 1, P::rest(s))) }
}
/// elements with a separator between them, each surrounded by ignored items; a separator without an element after it is left alone
pub open spec fn sep_tail<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> decreases n {
    let a = ig::<T, Ignore>(s);
    let t = ig::<T, Ignore>(S::pkr(a));
    if n <= 0 || !S::pk(a) || !P::ok(t) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(t)) is None { fail(<P as TryInto<Q>>::cerr(P::val(t))) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(t))->0], sep_tail::<T, P, Q, S, Ignore>(n - 1, P::rest(t))) }
}
pub open spec fn sep<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> {
    if n <= 0 || !P::ok(s) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(s)) is None { fail(<P as TryInto<Q>>::cerr(P::val(s))) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(s))->0], sep_tail::<T, P, Q, S, Ignore>(n - 1, P::rest(s))) }
}
/// elements each followed by a separator; an element without one is left alone
pub open spec fn trailing<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> decreases n {
    let a = ig::<T, Ignore>(P::rest(s));
    if n <= 0 || !P::ok(s) { stop(seq![], s) }
    else if !S::pk(a) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(s)) is None { fail(<P as TryInto<Q>>::cerr(P::val(s))) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(s))->0], trailing::<T, P, Q, S, Ignore>(n - 1, ig::<T, Ignore>(S::pkr(a)))) }
}
/// elements with separators between them and possibly after the last
pub open spec fn maybe_trailing<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, Ignore: Parse<T>>(n: int, s: Seq<T>) -> LR<T, Q::V> decreases n {
    let a = ig::<T, Ignore>(P::rest(s));
    if n <= 0 || !P::ok(s) { stop(seq![], s) }
    else if <P as TryInto<Q>>::conv(P::val(s)) is None { fail(<P as TryInto<Q>>::cerr(P::val(s))) }
    else if !S::pk(a) { stop(seq![<P as TryInto<Q>>::conv(P::val(s))->0], a) }
    else { before(seq![<P as TryInto<Q>>::conv(P::val(s))->0], maybe_trailing::<T, P, Q, S, Ignore>(n - 1, ig::<T, Ignore>(S::pkr(a)))) }
}

//@fn pub fn parse_vec<P: Parse<T> + TryInto<Q>, Q: Abs, Ignore: Parse<T>, T, B: Buffer<T>>(max: usize, input: &mut B) -> (r: Result<Vec<Q>>)
    requires old(input).wf(), P::pre(), Vec::<Ignore>::ppre()
    ensures
        final(input).wf(), // @clause frame
        final(input).ctx() == old(input).ctx(), // @clause frame
        r is Ok <==> plain::<T, P, Q, Ignore>(max as int, old(input).view()).ok, // @clause verdict
        r is Ok ==> final(input).view() == plain::<T, P, Q, Ignore>(max as int, old(input).view()).rest, // @clause rest
        r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
        r is Ok ==> r->Ok_0.abs() == plain::<T, P, Q, Ignore>(max as int, old(input).view()).vals, // @clause value
        r is Ok ==> r->Ok_0@.len() <= max, // @clause value
        r is Err ==> r->Err_0.view() == plain::<T, P, Q, Ignore>(max as int, old(input).view()).err, // @clause error
//@entry
    let ghost s0 = input.view();
    proof { P::law(s0); }
//@loop 0
    invariant_except_break
        before($acc.abs(), plain_tail::<T, P, Q, Ignore>(max - $acc@.len(), input.view())) == plain::<T, P, Q, Ignore>(max as int, old(input).view()),
    invariant
        P::pre(), Vec::<Ignore>::ppre(),
        $acc@.len() <= max,
        input.wf(), input.ctx() == old(input).ctx(),
        input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
    ensures
        plain::<T, P, Q, Ignore>(max as int, old(input).view()) == stop($acc.abs(), input.view()),
    decreases max - $acc@.len()
//@body 0
    proof { many_len::<T, Ignore>(input.view()); P::law(ig::<T, Ignore>(input.view())); }
//@end

//@fn pub fn parse_vec_seperated_by<P: Parse<T> + TryInto<Q>, Q: Abs, SeperatedBy: Parse<T>, Ignore: Parse<T>, T, B: Buffer<T>>(max: usize, input: &mut B) -> (r: Result<Vec<Q>>)
    requires old(input).wf(), P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre()
    ensures
        final(input).wf(), // @clause frame
        final(input).ctx() == old(input).ctx(), // @clause frame
        r is Ok <==> sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).ok, // @clause verdict
        r is Ok ==> final(input).view() == sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).rest, // @clause rest
        r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
        r is Ok ==> r->Ok_0.abs() == sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).vals, // @clause value
        r is Ok ==> r->Ok_0@.len() <= max, // @clause value
        r is Err ==> r->Err_0.view() == sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).err, // @clause error
//@entry
    let ghost s0 = input.view();
    proof { P::law(s0); }
//@loop 0
    invariant_except_break
        before($acc.abs(), sep_tail::<T, P, Q, SeperatedBy, Ignore>(max - $acc@.len(), input.view())) == sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()),
    invariant
        P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre(),
        $acc@.len() <= max,
        input.wf(), input.ctx() == old(input).ctx(),
        input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
    ensures
        sep::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()) == stop($acc.abs(), input.view()),
    decreases max - $acc@.len()
//@body 0
    proof { many_len::<T, Ignore>(input.view()); let a = ig::<T, Ignore>(input.view()); SeperatedBy::law(a); many_len::<T, Ignore>(SeperatedBy::pkr(a)); P::law(ig::<T, Ignore>(SeperatedBy::pkr(a))); }
//@end

//@fn pub fn parse_vec_seperated_by_trailing<P: Parse<T> + TryInto<Q>, Q: Abs, SeperatedBy: Parse<T>, Ignore: Parse<T>, T, B: Buffer<T>>(max: usize, input: &mut B) -> (r: Result<Vec<Q>>)
    requires old(input).wf(), P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre()
    ensures
        final(input).wf(), // @clause frame
        final(input).ctx() == old(input).ctx(), // @clause frame
        r is Ok <==> trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).ok, // @clause verdict
        r is Ok ==> final(input).view() == trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).rest, // @clause rest
        r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
        r is Ok ==> r->Ok_0.abs() == trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).vals, // @clause value
        r is Ok ==> r->Ok_0@.len() <= max, // @clause value
        r is Err ==> r->Err_0.view() == trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).err, // @clause error
//@entry
    let ghost s0 = input.view();
    proof { P::law(s0); }
//@loop 0
    invariant_except_break
        before($acc.abs(), trailing::<T, P, Q, SeperatedBy, Ignore>(max - $acc@.len(), input.view())) == trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()),
    invariant
        P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre(),
        $acc@.len() <= max,
        input.wf(), input.ctx() == old(input).ctx(),
        input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
    ensures
        trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()) == stop($acc.abs(), input.view()),
    decreases max - $acc@.len()
//@body 0
    proof { P::law(input.view()); many_len::<T, Ignore>(P::rest(input.view())); let a = ig::<T, Ignore>(P::rest(input.view())); SeperatedBy::law(a); many_len::<T, Ignore>(SeperatedBy::pkr(a)); }
//@end

//@fn pub fn parse_vec_seperated_by_maybe_trailing<P: Parse<T> + TryInto<Q>, Q: Abs, SeperatedBy: Parse<T>, Ignore: Parse<T>, T, B: Buffer<T>>(max: usize, input: &mut B) -> (r: Result<Vec<Q>>)
    requires old(input).wf(), P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre()
    ensures
        final(input).wf(), // @clause frame
        final(input).ctx() == old(input).ctx(), // @clause frame
        r is Ok <==> maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).ok, // @clause verdict
        r is Ok ==> final(input).view() == maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).rest, // @clause rest
        r is Ok ==> final(input).pos() - old(input).pos() == old(input).view().len() - final(input).view().len(), // @clause rest
        r is Ok ==> r->Ok_0.abs() == maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).vals, // @clause value
        r is Ok ==> r->Ok_0@.len() <= max, // @clause value
        r is Err ==> r->Err_0.view() == maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()).err, // @clause error
//@entry
    let ghost s0 = input.view();
    proof { P::law(s0); }
//@loop 0
    invariant_except_break
        before($acc.abs(), maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max - $acc@.len(), input.view())) == maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()),
    invariant
        P::pre(), Vec::<Ignore>::ppre(), SeperatedBy::ppre(),
        $acc@.len() <= max,
        input.wf(), input.ctx() == old(input).ctx(),
        input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
    ensures
        maybe_trailing::<T, P, Q, SeperatedBy, Ignore>(max as int, old(input).view()) == stop($acc.abs(), input.view()),
    decreases max - $acc@.len()
//@body 0
    proof { P::law(input.view()); many_len::<T, Ignore>(P::rest(input.view())); let a = ig::<T, Ignore>(P::rest(input.view())); SeperatedBy::law(a); many_len::<T, Ignore>(SeperatedBy::pkr(a)); }
//@end
