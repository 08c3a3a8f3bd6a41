// ================================================================ Option, Vec, Vec1, arrays, Box (nommy/src/impls.rs)
//@area core
impl<P: Abs> Abs for Option<P> { type V = Option<P::V>; open spec fn abs(&self) -> Option<P::V> { match self { Some(p) => Some(p.abs()), None => None } } }
impl<P: Abs> Abs for Vec<P> { type V = Seq<P::V>; open spec fn abs(&self) -> Seq<P::V> { abs_seq(self@) } }
impl<P: Abs> Abs for Vec1<P> { type V = Seq<P::V>; open spec fn abs(&self) -> Seq<P::V> { self.0.abs() } }
impl<P: Abs> Abs for Box<P> { type V = P::V; open spec fn abs(&self) -> P::V { (**self).abs() } }
impl<P: Abs, const N: usize> Abs for [P; N] { type V = Seq<P::V>; open spec fn abs(&self) -> Seq<P::V> { abs_seq(self@) } }

//@impl impl<P: Parse<T>, T> Parse<T> for Option<P>
    open spec fn pre() -> bool { P::pre() && (mode_b() || progress_ok::<T, P>()) }
    open spec fn ppre() -> bool { P::ppre() && (mode_b() || progress_pk::<T, P>()) }
    open spec fn ok(s: Seq<T>) -> bool { true }
    open spec fn rest(s: Seq<T>) -> Seq<T> { if P::ok(s) { P::rest(s) } else { s } }
    open spec fn val(s: Seq<T>) -> Option<P::V> { if P::ok(s) { Some(P::val(s)) } else { None } }
    open spec fn err(s: Seq<T>) -> ErrV { arbitrary() }
    open spec fn pk(s: Seq<T>) -> bool { true }
    open spec fn pkr(s: Seq<T>) -> Seq<T> { if P::pk(s) { P::pkr(s) } else { s } }
    open spec fn zero(s: Seq<T>) -> bool { P::ok(s) && P::rest(s).len() >= s.len() }
    open spec fn pzero(s: Seq<T>) -> bool { P::pk(s) && P::pkr(s).len() >= s.len() }
    proof fn law(s: Seq<T>) { P::law(s); }
    //@fn fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        proof { P::law(input.view()); }
    //@end
    //@fn fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
    //@entry
        proof { P::law(input.view()); }
    //@end
//@endimpl

/// what repeating P leaves, the values it collects, what repeating P's peek leaves
pub open spec fn many_rest<T, P: Parse<T>>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if P::ok(s) && P::rest(s).len() < s.len() { many_rest::<T, P>(P::rest(s)) } else { s }
}
pub open spec fn many_vals<T, P: Parse<T>>(s: Seq<T>) -> Seq<P::V> decreases s.len() {
    if P::ok(s) && P::rest(s).len() < s.len() { seq![P::val(s)] + many_vals::<T, P>(P::rest(s)) } else { seq![] }
}
pub open spec fn many_pkr<T, P: Parse<T>>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if P::pk(s) && P::pkr(s).len() < s.len() { many_pkr::<T, P>(P::pkr(s)) } else { s }
}
/// repeating P comes to a success that consumed nothing
pub open spec fn many_zero<T, P: Parse<T>>(s: Seq<T>) -> bool decreases s.len() {
    P::ok(s) && (P::rest(s).len() >= s.len() || many_zero::<T, P>(P::rest(s)))
}
pub open spec fn many_pzero<T, P: Parse<T>>(s: Seq<T>) -> bool decreases s.len() {
    P::pk(s) && (P::pkr(s).len() >= s.len() || many_pzero::<T, P>(P::pkr(s)))
}
pub proof fn many_len<T, P: Parse<T>>(s: Seq<T>)
    ensures many_rest::<T, P>(s).len() <= s.len(), many_pkr::<T, P>(s).len() <= s.len()
    decreases s.len()
{
    if P::ok(s) && P::rest(s).len() < s.len() { many_len::<T, P>(P::rest(s)) }
    if P::pk(s) && P::pkr(s).len() < s.len() { many_len::<T, P>(P::pkr(s)) }
}

//@impl impl<P: Parse<T>, T> Parse<T> for Vec<P>
    open spec fn pre() -> bool { P::pre() && (mode_b() || progress_ok::<T, P>()) }
    open spec fn ppre() -> bool { P::ppre() && (mode_b() || progress_pk::<T, P>()) }
    open spec fn ok(s: Seq<T>) -> bool { true }
    open spec fn rest(s: Seq<T>) -> Seq<T> { many_rest::<T, P>(s) }
    open spec fn val(s: Seq<T>) -> Seq<P::V> { many_vals::<T, P>(s) }
    open spec fn err(s: Seq<T>) -> ErrV { arbitrary() }
    open spec fn pk(s: Seq<T>) -> bool { true }
    open spec fn pkr(s: Seq<T>) -> Seq<T> { many_pkr::<T, P>(s) }
    open spec fn zero(s: Seq<T>) -> bool { many_zero::<T, P>(s) }
    open spec fn pzero(s: Seq<T>) -> bool { many_pzero::<T, P>(s) }
    proof fn law(s: Seq<T>) { many_len::<T, P>(s) }
    //@fn fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
    //@entry
    //@loop 0
        invariant
            P::pre(), mode_b() || progress_ok::<T, P>(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
            many_rest::<T, P>(input.view()) == many_rest::<T, P>(old(input).view()),
            many_zero::<T, P>(input.view()) == many_zero::<T, P>(old(input).view()), // @clause zero
            $acc.abs() + many_vals::<T, P>(input.view()) == many_vals::<T, P>(old(input).view()),
        ensures
            many_rest::<T, P>(input.view()) == input.view(),
            many_vals::<T, P>(input.view()) == Seq::<P::V>::empty(),
            mode_b() ==> !many_zero::<T, P>(input.view()), // @clause zero
        decreases input.view().len()
    //@body 0
        proof { P::law(input.view()); }
    //@end
    //@fn fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
    //@loop 0
        invariant
            P::ppre(), mode_b() || progress_pk::<T, P>(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == old(input).view().len() - input.view().len(),
            many_pkr::<T, P>(input.view()) == many_pkr::<T, P>(old(input).view()),
            many_pzero::<T, P>(input.view()) == many_pzero::<T, P>(old(input).view()), // @clause zero
        ensures
            many_pkr::<T, P>(input.view()) == input.view(),
            mode_b() ==> !many_pzero::<T, P>(input.view()), // @clause zero
        decreases input.view().len()
    //@body 0
        proof { P::law(input.view()); }
    //@end
//@endimpl

//@struct Vec1
//@impl impl<P> From<Vec1<P>> for Vec<P>
    open spec fn from_post(v: Vec1<P>, r: Self) -> bool { r == v.0 }
    //@fn fn from(v: Vec1<P>) -> (r: Self)
    //@end
//@endimpl
//@impl impl<P> AsRef<Vec<P>> for Vec1<P>
    open spec fn ref_post(&self, r: &Vec<P>) -> bool { *r == self.0 }
    //@fn fn as_ref(&self) -> (r: &Vec<P>)
    //@end
//@endimpl
//@impl impl<P> AsMut<Vec<P>> for Vec1<P>
    #[verifier::prophetic]
    open spec fn mut_post(before: &Self, after: &Self, r: &Vec<P>, last: &Vec<P>) -> bool { *r == before.0 && *last == after.0 }
    //@fn fn as_mut(&mut self) -> (r: &mut Vec<P>)
    //@end
//@endimpl
//@impl impl<P: Parse<T>, T> Parse<T> for Vec1<P>
    open spec fn pre() -> bool { P::pre() && (mode_b() || progress_ok::<T, P>()) }
    open spec fn ppre() -> bool { P::ppre() && (mode_b() || progress_pk::<T, P>()) }
    open spec fn ok(s: Seq<T>) -> bool { P::ok(s) }
    open spec fn rest(s: Seq<T>) -> Seq<T> { many_rest::<T, P>(P::rest(s)) }
    open spec fn val(s: Seq<T>) -> Seq<P::V> { seq![P::val(s)] + many_vals::<T, P>(P::rest(s)) }
    open spec fn err(s: Seq<T>) -> ErrV { P::err(s) }
    open spec fn pk(s: Seq<T>) -> bool { P::pk(s) }
    open spec fn pkr(s: Seq<T>) -> Seq<T> { many_pkr::<T, P>(P::pkr(s)) }
    open spec fn zero(s: Seq<T>) -> bool { P::ok(s) && many_zero::<T, P>(P::rest(s)) }
    open spec fn pzero(s: Seq<T>) -> bool { P::pk(s) && many_pzero::<T, P>(P::pkr(s)) }
    proof fn law(s: Seq<T>) { P::law(s); many_len::<T, P>(P::rest(s)); many_len::<T, P>(P::pkr(s)); }
    //@fn fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { P::law(s0); }
    //@loop 0
        invariant
            P::pre(), mode_b() || progress_ok::<T, P>(), P::ok(s0), s0 == old(input).view(), P::rest(s0).len() <= s0.len(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            many_rest::<T, P>(input.view()) == many_rest::<T, P>(P::rest(s0)),
            many_zero::<T, P>(input.view()) == many_zero::<T, P>(P::rest(s0)), // @clause zero
            $acc.abs() + many_vals::<T, P>(input.view()) == seq![P::val(s0)] + many_vals::<T, P>(P::rest(s0)),
        ensures
            many_rest::<T, P>(input.view()) == input.view(),
            many_vals::<T, P>(input.view()) == Seq::<P::V>::empty(),
            mode_b() ==> !many_zero::<T, P>(input.view()), // @clause zero
        decreases input.view().len()
    //@body 0
        proof { P::law(input.view()); }
    //@end
    //@fn fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
        proof { P::law(s0); }
    //@loop 0
        invariant
            P::ppre(), mode_b() || progress_pk::<T, P>(), P::pk(s0), s0 == old(input).view(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            many_pkr::<T, P>(input.view()) == many_pkr::<T, P>(P::pkr(s0)),
            many_pzero::<T, P>(input.view()) == many_pzero::<T, P>(P::pkr(s0)), // @clause zero
        ensures
            many_pkr::<T, P>(input.view()) == input.view(),
            mode_b() ==> !many_pzero::<T, P>(input.view()), // @clause zero
        decreases input.view().len()
    //@body 0
        proof { P::law(input.view()); }
    //@end
//@endimpl

// ---------------------------------------------------------------- arrays
pub open spec fn arr_ok<T, P: Parse<T>>(n: int, s: Seq<T>) -> bool decreases n { n <= 0 || P::ok(s) && arr_ok::<T, P>(n - 1, P::rest(s)) }
pub open spec fn arr_rest<T, P: Parse<T>>(n: int, s: Seq<T>) -> Seq<T> decreases n { if n <= 0 { s } else { arr_rest::<T, P>(n - 1, P::rest(s)) } }
pub open spec fn arr_vals<T, P: Parse<T>>(n: int, s: Seq<T>) -> Seq<P::V> decreases n { if n <= 0 { seq![] } else { seq![P::val(s)] + arr_vals::<T, P>(n - 1, P::rest(s)) } }
/// element `k` is the next of `n` elements: the error names the first that fails
pub open spec fn arr_err<T, P: Parse<T>>(k: int, n: int, s: Seq<T>) -> ErrV decreases n {
    if n <= 0 { arbitrary() } else if !P::ok(s) { ErrV::Wrap("could not parse element {}"@, seq![DV::Int(k)], Box::new(P::err(s))) } else { arr_err::<T, P>(k + 1, n - 1, P::rest(s)) }
}
pub open spec fn arr_pk<T, P: Parse<T>>(n: int, s: Seq<T>) -> bool decreases n { n <= 0 || P::pk(s) && arr_pk::<T, P>(n - 1, P::pkr(s)) }
pub open spec fn arr_pkr<T, P: Parse<T>>(n: int, s: Seq<T>) -> Seq<T> decreases n { if n <= 0 { s } else { arr_pkr::<T, P>(n - 1, P::pkr(s)) } }
pub proof fn arr_len<T, P: Parse<T>>(n: int, s: Seq<T>)
    ensures arr_ok::<T, P>(n, s) ==> arr_rest::<T, P>(n, s).len() <= s.len(), arr_pk::<T, P>(n, s) ==> arr_pkr::<T, P>(n, s).len() <= s.len(),
        n >= 0 && arr_ok::<T, P>(n, s) ==> arr_vals::<T, P>(n, s).len() == n,
    decreases n
{
    if n > 0 { P::law(s); arr_len::<T, P>(n - 1, P::rest(s)); arr_len::<T, P>(n - 1, P::pkr(s)); }
}
pub proof fn arr_split<T, P: Parse<T>>(s: Seq<T>)
    ensures
        forall|n: int| #[trigger] arr_ok::<T, P>(n, s) == (n <= 0 || P::ok(s) && arr_ok::<T, P>(n - 1, P::rest(s))),
        forall|n: int| #[trigger] arr_vals::<T, P>(n, s) == if n <= 0 { seq![] } else { seq![P::val(s)] + arr_vals::<T, P>(n - 1, P::rest(s)) },
{
}
/// `Vec<P>` into `[P; N]`: succeeds exactly when there are N elements, and keeps them in order
impl<P> Error for Vec<P> {
    uninterp spec fn ev(&self) -> ErrV;
    #[verifier::external_body]
    fn into_report(self) -> (r: Report) { unimplemented!() }
}
impl<P: Abs, const N: usize> TryFrom<Vec<P>> for [P; N] {
    type Error = Vec<P>;
    open spec fn tconv(v: Seq<P::V>) -> Option<Seq<P::V>> { if v.len() == N { Some(v) } else { None } }
    uninterp spec fn tcerr(v: Seq<P::V>) -> ErrV;
    #[verifier::external_body]
    fn try_from(a: Vec<P>) -> (r: core::result::Result<[P; N], Vec<P>>) { unimplemented!() }
}
//@impl impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N]
    open spec fn pre() -> bool { P::pre() }
    open spec fn ppre() -> bool { P::ppre() }
    open spec fn ok(s: Seq<T>) -> bool { arr_ok::<T, P>(N as int, s) }
    open spec fn rest(s: Seq<T>) -> Seq<T> { arr_rest::<T, P>(N as int, s) }
    open spec fn val(s: Seq<T>) -> Seq<P::V> { arr_vals::<T, P>(N as int, s) }
    open spec fn err(s: Seq<T>) -> ErrV { arr_err::<T, P>(0, N as int, s) }
    open spec fn pk(s: Seq<T>) -> bool { arr_pk::<T, P>(N as int, s) }
    open spec fn pkr(s: Seq<T>) -> Seq<T> { arr_pkr::<T, P>(N as int, s) }
    proof fn law(s: Seq<T>) { arr_len::<T, P>(N as int, s) }
    //@fn fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
    //@entry
        let ghost s0 = input.view();
        proof { arr_len::<T, P>(N as int, s0); }
    //@loop 0
        invariant
            P::pre(), 0 <= $c0 <= $n0, $n0 == N, s0 == old(input).view(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            $acc@.len() == $c0,
            arr_ok::<T, P>(N as int, s0) == arr_ok::<T, P>(N - $c0, input.view()),
            arr_rest::<T, P>(N as int, s0) == arr_rest::<T, P>(N - $c0, input.view()),
            $acc.abs() + arr_vals::<T, P>(N - $c0, input.view()) == arr_vals::<T, P>(N as int, s0),
            arr_err::<T, P>(0, N as int, s0) == arr_err::<T, P>($c0 as int, N - $c0, input.view()),
        ensures $c0 == $n0
        decreases $n0 - $c0
    //@end
    //@fn fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
    //@entry
        let ghost s0 = input.view();
    //@loop 0
        invariant
            P::ppre(), 0 <= $c0 <= $n0, $n0 == N, s0 == old(input).view(),
            input.wf(), input.ctx() == old(input).ctx(),
            input.pos() - old(input).pos() == s0.len() - input.view().len(),
            arr_pk::<T, P>(N as int, s0) == arr_pk::<T, P>(N - $c0, input.view()),
            arr_pkr::<T, P>(N as int, s0) == arr_pkr::<T, P>(N - $c0, input.view()),
        ensures $c0 == $n0
        decreases $n0 - $c0
    //@end
//@endimpl

//@impl impl<P: Parse<T>, T> Parse<T> for Box<P>
    open spec fn pre() -> bool { P::pre() }
    open spec fn ppre() -> bool { P::ppre() }
    open spec fn ok(s: Seq<T>) -> bool { P::ok(s) }
    open spec fn rest(s: Seq<T>) -> Seq<T> { P::rest(s) }
    open spec fn val(s: Seq<T>) -> P::V { P::val(s) }
    open spec fn err(s: Seq<T>) -> ErrV { P::err(s) }
    open spec fn pk(s: Seq<T>) -> bool { P::pk(s) }
    open spec fn pkr(s: Seq<T>) -> Seq<T> { P::pkr(s) }
    proof fn law(s: Seq<T>) { P::law(s); }
    //@fn fn parse<B: Buffer<T>>(input: &mut B) -> (r: Result<Self>)
    //@end
    //@fn fn peek<B: Buffer<T>>(input: &mut B) -> (r: bool)
    //@end
//@endimpl
