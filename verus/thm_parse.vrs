// ================================================================ theorems about parsers: lemmas over the contracts
//@thm thm_agree_lexemes C04
/// C04: peek and parse of the lexeme parsers agree on every input
pub proof fn thm_agree_lexemes<S: StrConst, Y: BytesConst>()
    ensures
        agree::<char, text::Tag<S>>(), agree::<char, text::OneOf<S>>(), agree::<char, text::AnyOf<S>>(), agree::<char, text::AnyOf1<S>>(), agree::<char, text::WhileNot1<S>>(),
        agree::<char, text::Space>(), agree::<char, text::WhiteSpace>(), agree::<char, text::LineEnding>(),
        agree::<u8, bytes::Tag<Y>>(), agree::<u8, bytes::OneOf<Y>>(), agree::<u8, bytes::AnyOf1<Y>>(),
{}
//@endthm
pub proof fn many_agree<T, P: Parse<T>>(s: Seq<T>)
    requires agree::<T, P>()
    ensures many_rest::<T, P>(s) == many_pkr::<T, P>(s)
    decreases s.len()
{
    assert(agree_at::<T, P>(s));
    if P::ok(s) && P::rest(s).len() < s.len() { many_agree::<T, P>(P::rest(s)) }
}
pub proof fn arr_agree<T, P: Parse<T>>(n: int, s: Seq<T>)
    requires agree::<T, P>()
    ensures arr_ok::<T, P>(n, s) == arr_pk::<T, P>(n, s), arr_ok::<T, P>(n, s) ==> arr_rest::<T, P>(n, s) == arr_pkr::<T, P>(n, s)
    decreases n
{
    assert(agree_at::<T, P>(s));
    if n > 0 && P::ok(s) { arr_agree::<T, P>(n - 1, P::rest(s)) }
}
//@thm thm_agree_composite C04
/// C04: parsers built from a parser whose peek and parse agree agree too
pub proof fn thm_agree_composite<T, P: Parse<T>, const N: usize>()
    requires agree::<T, P>()
    ensures agree::<T, Option<P>>(), agree::<T, Box<P>>(), agree::<T, Vec<P>>(), agree::<T, Vec1<P>>(), agree::<T, [P; N]>(),
{
    assert forall|s: Seq<T>| agree_at::<T, Option<P>>(s) by { assert(agree_at::<T, P>(s)) }
    assert forall|s: Seq<T>| agree_at::<T, Box<P>>(s) by { assert(agree_at::<T, P>(s)) }
    assert forall|s: Seq<T>| agree_at::<T, Vec<P>>(s) by { many_agree::<T, P>(s) }
    assert forall|s: Seq<T>| agree_at::<T, Vec1<P>>(s) by { assert(agree_at::<T, P>(s)); many_agree::<T, P>(P::rest(s)) }
    assert forall|s: Seq<T>| agree_at::<T, [P; N]>(s) by { arr_agree::<T, P>(N as int, s) }
}
//@endthm
//@thm thm_progress C16
/// C16: the lexeme parsers never succeed without consuming, except the empty tag and AnyOf; so neither do Vec1, Box and arrays of such
pub proof fn thm_progress<S: StrConst, Y: BytesConst, T, P: Parse<T>>()
    ensures
        S::spec().len() > 0 ==> progress_ok::<char, text::Tag<S>>() && progress_pk::<char, text::Tag<S>>(),
        Y::spec().len() > 0 ==> progress_ok::<u8, bytes::Tag<Y>>() && progress_pk::<u8, bytes::Tag<Y>>(),
        progress_ok::<char, text::OneOf<S>>(), progress_ok::<char, text::AnyOf1<S>>(), progress_ok::<char, text::WhileNot1<S>>(),
        progress_ok::<char, text::Space>(), progress_ok::<char, text::WhiteSpace>(), progress_ok::<char, text::LineEnding>(),
        progress_ok::<u8, bytes::OneOf<Y>>(), progress_ok::<u8, bytes::AnyOf1<Y>>(),
        progress_ok::<T, P>() ==> progress_ok::<T, Vec1<P>>() && progress_ok::<T, Box<P>>(),
{
    assert forall|s: Seq<char>| #[trigger] <text::Tag<S> as Parse<char>>::ok(s) && S::spec().len() > 0 implies <text::Tag<S> as Parse<char>>::rest(s).len() < s.len() by { if s.len() == 0 { assert(take(s, S::spec().len() as int).len() == 0); } }
    assert forall|s: Seq<u8>| #[trigger] <bytes::Tag<Y> as Parse<u8>>::ok(s) && Y::spec().len() > 0 implies <bytes::Tag<Y> as Parse<u8>>::rest(s).len() < s.len() by { if s.len() == 0 { assert(take(s, Y::spec().len() as int).len() == 0); } }
    assert forall|s: Seq<T>| #[trigger] <Vec1<P> as Parse<T>>::ok(s) && progress_ok::<T, P>() implies <Vec1<P> as Parse<T>>::rest(s).len() < s.len() by { many_len::<T, P>(P::rest(s)); }
}
//@endthm
//@thm thm_repeat C08
/// C08: what Vec leaves cannot be parsed once more, and it holds one value per successful parse
pub proof fn thm_repeat<T, P: Parse<T>>(s: Seq<T>)
    requires progress_ok::<T, P>()
    ensures !P::ok(<Vec<P> as Parse<T>>::rest(s)),
        exists|n: int| 0 <= n && #[trigger] arr_ok::<T, P>(n, s) && arr_rest::<T, P>(n, s) == <Vec<P> as Parse<T>>::rest(s) && arr_vals::<T, P>(n, s) == <Vec<P> as Parse<T>>::val(s),
    decreases s.len()
{
    if P::ok(s) {
        P::law(s);
        thm_repeat::<T, P>(P::rest(s));
        let r = P::rest(s);
        let n = choose|n: int| 0 <= n && #[trigger] arr_ok::<T, P>(n, r) && arr_rest::<T, P>(n, r) == <Vec<P> as Parse<T>>::rest(r) && arr_vals::<T, P>(n, r) == <Vec<P> as Parse<T>>::val(r);
        assert(arr_ok::<T, P>(n + 1, s));
    } else { assert(arr_ok::<T, P>(0, s)); }
}
//@endthm
//@thm thm_trace C08 C09
/// C08, C09: a parser run on a cursor leaves no trace on the parent unless it is committed
pub fn thm_trace<T, P: Parse<T>, B: Buffer<T>>(input: &mut B) -> (r: bool)
    requires old(input).wf(), P::pre()
    ensures final(input).wf(), final(input).view() == old(input).view(), final(input).pos() == old(input).pos(), final(input).ctx() == old(input).ctx(), r == P::ok(old(input).view())
{
    let mut c = input.cursor();
    match P::parse(&mut c) { Ok(_) => true, Err(_) => false }
}
//@endthm
