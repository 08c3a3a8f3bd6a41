// ================================================================ ignored items: once their run is over there is no more of it
pub proof fn many_twice_at<T, P: Parse<T>>(s: Seq<T>)
    ensures many_pkr::<T, P>(many_pkr::<T, P>(s)) == many_pkr::<T, P>(s), many_pzero::<T, P>(many_pkr::<T, P>(s)) ==> many_pzero::<T, P>(s)
    decreases s.len()
{ if P::pk(s) && P::pkr(s).len() < s.len() { many_twice_at::<T, P>(P::pkr(s)) } }
pub proof fn many_twice<T, P: Parse<T>>()
    ensures
        forall|s: Seq<T>| #[trigger] many_pkr::<T, P>(many_pkr::<T, P>(s)) == many_pkr::<T, P>(s),
        forall|s: Seq<T>| #[trigger] many_pzero::<T, P>(many_pkr::<T, P>(s)) ==> many_pzero::<T, P>(s),
{
    assert forall|s: Seq<T>| #[trigger] many_pkr::<T, P>(many_pkr::<T, P>(s)) == many_pkr::<T, P>(s) by { many_twice_at::<T, P>(s) }
    assert forall|s: Seq<T>| #[trigger] many_pzero::<T, P>(many_pkr::<T, P>(s)) implies many_pzero::<T, P>(s) by { many_twice_at::<T, P>(s) }
}
// ================================================================ lemmas about the list grammars, for derived parsers
/// a conversion that cannot fail
pub open spec fn total_<P: TryInto<Q>, Q: Abs>() -> bool { forall|v: P::V| #[trigger] <P as TryInto<Q>>::conv(v) is Some }
pub open spec fn same_ig<T, I: Parse<T>, J: Parse<T>>() -> bool { forall|s: Seq<T>| #[trigger] many_pkr::<T, I>(s) == many_pkr::<T, J>(s) }
pub proof fn plain_tail_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, I: Parse<T>>(n: int, s: Seq<T>)
    ensures plain_tail::<T, P, Q, I>(n, s).ok ==> plain_tail::<T, P, Q, I>(n, s).rest.len() <= s.len()
    decreases n
{ many_len::<T, I>(s); P::law(ig::<T, I>(s)); let t = ig::<T, I>(s); if n > 0 && P::ok(t) { plain_tail_len::<T, P, Q, I>(n - 1, P::rest(t)); } }
pub proof fn plain_tail_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures plain_tail::<T, P, Q, I>(n, s).ok, plain_tail::<T, P, P, I>(n, s).ok, plain_tail::<T, P, Q, I>(n, s).rest == plain_tail::<T, P, P, I>(n, s).rest
    decreases n
{ let v_ = P::val(ig::<T, I>(s)); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); let t = ig::<T, I>(s); if n > 0 && P::ok(t) { plain_tail_total::<T, P, Q, I>(n - 1, P::rest(t)); } }
pub proof fn plain_tail_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures plain_tail::<T, P, Q, I>(n, s) == plain_tail::<T, P, Q, J>(n, s)
    decreases n
{ let t = ig::<T, J>(s); if n > 0 && P::ok(t) { plain_tail_cong::<T, P, Q, I, J>(n - 1, P::rest(t)); } }
pub proof fn plain_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, I: Parse<T>>(n: int, s: Seq<T>)
    ensures plain::<T, P, Q, I>(n, s).ok ==> plain::<T, P, Q, I>(n, s).rest.len() <= s.len()
    decreases n
{ P::law(s); if n > 0 && P::ok(s) { plain_tail_len::<T, P, Q, I>(n - 1, P::rest(s)); } }
pub proof fn plain_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures plain::<T, P, Q, I>(n, s).ok, plain::<T, P, P, I>(n, s).ok, plain::<T, P, Q, I>(n, s).rest == plain::<T, P, P, I>(n, s).rest
    decreases n
{ let v_ = P::val(s); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); if n > 0 && P::ok(s) { plain_tail_total::<T, P, Q, I>(n - 1, P::rest(s)); } }
pub proof fn plain_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures plain::<T, P, Q, I>(n, s) == plain::<T, P, Q, J>(n, s)
    decreases n
{ if n > 0 && P::ok(s) { plain_tail_cong::<T, P, Q, I, J>(n - 1, P::rest(s)); } }
pub proof fn sep_tail_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    ensures sep_tail::<T, P, Q, S, I>(n, s).ok ==> sep_tail::<T, P, Q, S, I>(n, s).rest.len() <= s.len()
    decreases n
{ many_len::<T, I>(s); S::law(ig::<T, I>(s)); many_len::<T, I>(S::pkr(ig::<T, I>(s))); P::law(ig::<T, I>(S::pkr(ig::<T, I>(s)))); let a = ig::<T, I>(s); let t = ig::<T, I>(S::pkr(a)); if n > 0 && S::pk(a) && P::ok(t) { sep_tail_len::<T, P, Q, S, I>(n - 1, P::rest(t)); } }
pub proof fn sep_tail_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures sep_tail::<T, P, Q, S, I>(n, s).ok, sep_tail::<T, P, P, S, I>(n, s).ok, sep_tail::<T, P, Q, S, I>(n, s).rest == sep_tail::<T, P, P, S, I>(n, s).rest
    decreases n
{ let v_ = P::val(ig::<T, I>(S::pkr(ig::<T, I>(s)))); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); let a = ig::<T, I>(s); let t = ig::<T, I>(S::pkr(a)); if n > 0 && S::pk(a) && P::ok(t) { sep_tail_total::<T, P, Q, S, I>(n - 1, P::rest(t)); } }
pub proof fn sep_tail_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures sep_tail::<T, P, Q, S, I>(n, s) == sep_tail::<T, P, Q, S, J>(n, s)
    decreases n
{ let a = ig::<T, J>(s); let t = ig::<T, J>(S::pkr(a)); if n > 0 && S::pk(a) && P::ok(t) { sep_tail_cong::<T, P, Q, S, I, J>(n - 1, P::rest(t)); } }
pub proof fn sep_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    ensures sep::<T, P, Q, S, I>(n, s).ok ==> sep::<T, P, Q, S, I>(n, s).rest.len() <= s.len()
    decreases n
{ P::law(s); if n > 0 && P::ok(s) { sep_tail_len::<T, P, Q, S, I>(n - 1, P::rest(s)); } }
pub proof fn sep_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures sep::<T, P, Q, S, I>(n, s).ok, sep::<T, P, P, S, I>(n, s).ok, sep::<T, P, Q, S, I>(n, s).rest == sep::<T, P, P, S, I>(n, s).rest
    decreases n
{ let v_ = P::val(s); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); if n > 0 && P::ok(s) { sep_tail_total::<T, P, Q, S, I>(n - 1, P::rest(s)); } }
pub proof fn sep_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures sep::<T, P, Q, S, I>(n, s) == sep::<T, P, Q, S, J>(n, s)
    decreases n
{ if n > 0 && P::ok(s) { sep_tail_cong::<T, P, Q, S, I, J>(n - 1, P::rest(s)); } }
pub proof fn trailing_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    ensures trailing::<T, P, Q, S, I>(n, s).ok ==> trailing::<T, P, Q, S, I>(n, s).rest.len() <= s.len()
    decreases n
{ P::law(s); many_len::<T, I>(P::rest(s)); S::law(ig::<T, I>(P::rest(s))); many_len::<T, I>(S::pkr(ig::<T, I>(P::rest(s)))); let a = ig::<T, I>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { trailing_len::<T, P, Q, S, I>(n - 1, ig::<T, I>(S::pkr(a))); } }
pub proof fn trailing_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures trailing::<T, P, Q, S, I>(n, s).ok, trailing::<T, P, P, S, I>(n, s).ok, trailing::<T, P, Q, S, I>(n, s).rest == trailing::<T, P, P, S, I>(n, s).rest
    decreases n
{ let v_ = P::val(s); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); let a = ig::<T, I>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { trailing_total::<T, P, Q, S, I>(n - 1, ig::<T, I>(S::pkr(a))); } }
pub proof fn trailing_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures trailing::<T, P, Q, S, I>(n, s) == trailing::<T, P, Q, S, J>(n, s)
    decreases n
{ let a = ig::<T, J>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { trailing_cong::<T, P, Q, S, I, J>(n - 1, ig::<T, J>(S::pkr(a))); } }
pub proof fn maybe_trailing_len<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    ensures maybe_trailing::<T, P, Q, S, I>(n, s).ok ==> maybe_trailing::<T, P, Q, S, I>(n, s).rest.len() <= s.len()
    decreases n
{ P::law(s); many_len::<T, I>(P::rest(s)); S::law(ig::<T, I>(P::rest(s))); many_len::<T, I>(S::pkr(ig::<T, I>(P::rest(s)))); let a = ig::<T, I>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { maybe_trailing_len::<T, P, Q, S, I>(n - 1, ig::<T, I>(S::pkr(a))); } }
pub proof fn maybe_trailing_total<T, P: Parse<T> + TryInto<Q> + TryInto<P>, Q: Abs, S: Parse<T>, I: Parse<T>>(n: int, s: Seq<T>)
    requires total_::<P, Q>(), total_::<P, P>()
    ensures maybe_trailing::<T, P, Q, S, I>(n, s).ok, maybe_trailing::<T, P, P, S, I>(n, s).ok, maybe_trailing::<T, P, Q, S, I>(n, s).rest == maybe_trailing::<T, P, P, S, I>(n, s).rest
    decreases n
{ let v_ = P::val(s); assert(<P as TryInto<Q>>::conv(v_) is Some && <P as TryInto<P>>::conv(v_) is Some); let a = ig::<T, I>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { maybe_trailing_total::<T, P, Q, S, I>(n - 1, ig::<T, I>(S::pkr(a))); } }
pub proof fn maybe_trailing_cong<T, P: Parse<T> + TryInto<Q>, Q: Abs, S: Parse<T>, I: Parse<T>, J: Parse<T>>(n: int, s: Seq<T>)
    requires same_ig::<T, I, J>()
    ensures maybe_trailing::<T, P, Q, S, I>(n, s) == maybe_trailing::<T, P, Q, S, J>(n, s)
    decreases n
{ let a = ig::<T, J>(P::rest(s)); if n > 0 && P::ok(s) && S::pk(a) { maybe_trailing_cong::<T, P, Q, S, I, J>(n - 1, ig::<T, J>(S::pkr(a))); } }
