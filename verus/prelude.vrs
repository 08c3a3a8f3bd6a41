// Prelude: vocabulary of the contracts.  Everything marked external_body here is a trusted assumption
// about the standard library or eyre, listed in the evidence of every check.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, dead_code, unused_braces, non_camel_case_types, unused_must_use, unreachable_code, unused_assignments, irrefutable_let_patterns, unreachable_patterns, non_shorthand_field_patterns)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {

// ---------------------------------------------------------------- sequences
pub mod seqs {
    use vstd::prelude::*;
    /// `s` without its first `n` items; empty when there are fewer
    pub open spec fn skip<A>(s: Seq<A>, n: int) -> Seq<A> { if n <= s.len() { s.skip(n) } else { Seq::empty() } }
    /// the first `n` items of `s`, or all of it
    pub open spec fn take<A>(s: Seq<A>, n: int) -> Seq<A> { if n <= s.len() { s.take(n) } else { s } }
    pub broadcast proof fn skip_skip<A>(s: Seq<A>, a: int, b: int)
        requires 0 <= a, 0 <= b
        ensures #[trigger] skip(skip(s, a), b) == skip(s, a + b)
    { assert(skip(skip(s, a), b) =~= skip(s, a + b)); }
    pub broadcast proof fn skip_zero<A>(s: Seq<A>)
        ensures #[trigger] skip(s, 0) == s
    { assert(skip(s, 0) =~= s); }
}
pub use seqs::*;
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
broadcast use {skip_skip, skip_zero, seq_abs};

/// B: builds with debug assertions, where the panics of the zero-width checks are allowed to happen
pub open spec fn mode_b() -> bool { __MODE_B__ }
pub uninterp spec fn debug() -> bool;
#[verifier::external_body]
pub fn debug_assertions_() -> (b: bool) ensures b == debug(), mode_b() ==> b { unimplemented!() }
#[verifier::external_body]
pub fn panic_() -> ! requires mode_b() ensures false { unimplemented!() }
#[verifier::external_body]
pub fn unreached_() -> ! requires false ensures false { unimplemented!() }
pub fn assert_(b: bool) requires b {}

// ---------------------------------------------------------------- abstract values, errors
pub mod absm {
use vstd::prelude::*;
pub trait Abs { type V; spec fn abs(&self) -> Self::V; }
#[verifier::opaque]
pub open spec fn abs_seq<P: Abs>(v: Seq<P>) -> Seq<P::V> { Seq::new(v.len(), |i: int| v[i].abs()) }
pub broadcast proof fn abs_push<P: Abs>(v: Seq<P>, p: P)
    ensures #[trigger] abs_seq(v.push(p)) == abs_seq(v).push(p.abs())
{ reveal(abs_seq); assert(abs_seq(v.push(p)) =~= abs_seq(v).push(p.abs())); }
pub broadcast proof fn abs_len<P: Abs>(v: Seq<P>)
    ensures (#[trigger] abs_seq(v)).len() == v.len(), v.len() == 0 ==> abs_seq(v) == Seq::<P::V>::empty()
{ reveal(abs_seq); if v.len() == 0 { assert(abs_seq(v) =~= Seq::<P::V>::empty()); } }
pub broadcast proof fn abs_one<P: Abs>(p: P)
    ensures #[trigger] abs_seq(seq![p]) == seq![p.abs()]
{ reveal(abs_seq); assert(abs_seq(seq![p]) =~= seq![p.abs()]); }
pub broadcast proof fn push_add<A>(v: Seq<A>, a: A, w: Seq<A>)
    ensures #[trigger] (v.push(a) + w) == v + (seq![a] + w)
{ assert(v.push(a) + w =~= v + (seq![a] + w)); }
pub broadcast proof fn add_one<A>(v: Seq<A>, a: A)
    ensures #[trigger] (v + seq![a]) == v.push(a)
{ assert(v + seq![a] =~= v.push(a)); }
pub broadcast proof fn add_empty<A>(v: Seq<A>)
    ensures #[trigger] (v + Seq::<A>::empty()) == v, 
{ assert(v + Seq::<A>::empty() =~= v); }
pub broadcast proof fn empty_add<A>(v: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + v) == v
{ assert(Seq::<A>::empty() + v =~= v); }
pub broadcast group seq_abs { abs_push, abs_len, abs_one, push_add, add_one, add_empty, empty_add }
}
pub use absm::*;
/// a formatted value in an error message
pub enum DV { Str(Seq<char>), Bytes(Seq<u8>), Chr(char), Byte(u8), Int(int), Other }
/// what an error report says: a format string with its values, possibly wrapped around a cause
pub enum ErrV { Fmt(Seq<char>, Seq<DV>), Wrap(Seq<char>, Seq<DV>, Box<ErrV>), Conv(int) }
pub open spec fn lit_(s: &str) -> Seq<char> { s@ }
pub trait Dv { spec fn dv(&self) -> DV; }
impl Dv for char { open spec fn dv(&self) -> DV { DV::Chr(*self) } }
impl Dv for u8 { open spec fn dv(&self) -> DV { DV::Byte(*self) } }
impl Dv for usize { open spec fn dv(&self) -> DV { DV::Int(*self as int) } }
impl Dv for String { open spec fn dv(&self) -> DV { DV::Str(self@) } }
impl Dv for Vec<u8> { open spec fn dv(&self) -> DV { DV::Bytes(self@) } }

#[verifier::external_body]
pub struct Report { _p: () }
impl Report { pub uninterp spec fn view(&self) -> ErrV; }
#[verifier::external_body]
pub fn report_(Ghost(v): Ghost<ErrV>) -> (r: Report) ensures r.view() == v { unimplemented!() }
#[verifier::external_body]
pub struct Msg { _p: () }
impl Msg { pub uninterp spec fn fmt(&self) -> Seq<char>; pub uninterp spec fn args(&self) -> Seq<DV>; }
#[verifier::external_body]
pub fn msg_(Ghost(f): Ghost<(Seq<char>, Seq<DV>)>) -> (r: Msg) ensures r.fmt() == f.0, r.args() == f.1 { unimplemented!() }
#[verifier::external_body]
pub fn wrap_(e: Report, m: Msg) -> (r: Report) ensures r.view() == ErrV::Wrap(m.fmt(), m.args(), Box::new(e.view())) { unimplemented!() }
pub trait Error: Sized {
    spec fn ev(&self) -> ErrV;
    fn into_report(self) -> (r: Report) ensures r.view() == self.ev();
}
impl Error for Report {
    open spec fn ev(&self) -> ErrV { self.view() }
    fn into_report(self) -> (r: Report) { self }
}
pub fn into_report_<E: Error>(e: E) -> (r: Report) ensures r.view() == e.ev() { e.into_report() }
pub type Result<T, E = Report> = core::result::Result<T, E>;
pub mod eyre { pub use super::Result; pub use super::Report; }

// ---------------------------------------------------------------- standard library pieces
#[verifier::external_body]
pub fn clone_<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
pub fn sat_add_(a: usize, b: usize) -> (r: usize)
    ensures r == if a + b <= usize::MAX { a + b } else { usize::MAX as int }
{ if a <= usize::MAX - b { a + b } else { usize::MAX } }
pub fn sat_sub_(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a - b } else { 0 }
{ if a >= b { a - b } else { 0 } }
pub fn min_(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max_(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vec1_<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { let mut v = Vec::new(); v.push(t); v }
/// `unwrap`/`expect`: must never be reached on None or Err
pub trait Unwrap { type O; spec fn has(&self) -> bool; spec fn get_(&self) -> Self::O; fn unwrap__(self) -> (r: Self::O) requires self.has() ensures r == self.get_(); }
impl<T> Unwrap for Option<T> { type O = T; open spec fn has(&self) -> bool { *self is Some } open spec fn get_(&self) -> T { self->0 }
    fn unwrap__(self) -> (r: T) { match self { Some(v) => v, None => unreached_() } } }
impl<T, E> Unwrap for core::result::Result<T, E> { type O = T; open spec fn has(&self) -> bool { *self is Ok } open spec fn get_(&self) -> T { self->Ok_0 }
    fn unwrap__(self) -> (r: T) { match self { Ok(v) => v, Err(_) => unreached_() } } }
pub fn unwrap_<U: Unwrap>(u: U) -> (r: U::O) requires u.has() ensures r == u.get_() { u.unwrap__() }
pub fn opt_eq_(a: &Option<char>, b: &Option<char>) -> (r: bool) ensures r == (*a == *b)
{ match (a, b) { (Some(x), Some(y)) => *x == *y, (None, None) => true, _ => false } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { _p: PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
            old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() == old(self).view().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
            old(self).view().len() > 0 ==> r == Some(old(self).view().last()) && final(self).view() == old(self).view().drop_last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self).view() == old(self).view().push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, t: T) ensures final(self).view() == seq![t] + old(self).view() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self).view() == take(old(self).view(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn rotate_left(&mut self, n: usize)
        requires n <= old(self).view().len()
        ensures final(self).view() == old(self).view().skip(n as int) + old(self).view().take(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rotate_right(&mut self, n: usize)
        requires n <= old(self).view().len()
        ensures final(self).view() == old(self).view().skip(old(self).view().len() - n) + old(self).view().take(old(self).view().len() - n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures i < self.view().len() ==> r == Some(&self.view()[i as int]), i >= self.view().len() ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at_(&self, i: usize) -> (r: &T) requires i < self.view().len() ensures *r == self.view()[i as int] { unimplemented!() }
}

// ---------------------------------------------------------------- iterators
/// std's Iterator, for a source whose end is final.  `view` is what it has still to yield, `ctx` (prophetic)
/// everything about it that reading must not change, `pos` a counter that advances by the items consumed.
pub trait Iterator: Sized {
    type Item;
    type Ctx;
    spec fn view(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    spec fn ctx(&self) -> Self::Ctx;
    spec fn pos(&self) -> int;
    spec fn wf(&self) -> bool;
    proof fn wf_len(&self) requires self.wf() ensures self.view().len() <= usize::MAX;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).ctx() == old(self).ctx(),
            old(self).view().len() == 0 ==> r is None,
            old(self).view().len() > 0 ==> r == Some(old(self).view()[0]),
            final(self).view() == skip(old(self).view(), 1),
            final(self).pos() - old(self).pos() == old(self).view().len() - final(self).view().len(),
    ;
    fn take<'t>(&'t mut self, n: usize) -> (r: Take<'t, Self>)
        ensures *r.it == *old(self), *final(r.it) == *final(self), r.n == n,
    { Take { it: self, n } }
}
pub trait IntoIterator: Sized {
    type IntoIter: Iterator;
    spec fn items(&self) -> Seq<<Self::IntoIter as Iterator>::Item>;
    spec fn iwf(&self) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter) requires self.iwf() ensures r.wf(), r.view() == self.items();
}
/// `Iterator::take` on a borrowed iterator: reads the underlying iterator only when asked, at most n times
pub struct Take<'t, I: Iterator> { pub it: &'t mut I, pub n: usize }
impl<'t, I: Iterator> Take<'t, I> {
    fn next_(&mut self) -> (r: Option<I::Item>)
        requires old(self).it.wf()
        ensures final(self).it.wf(), *final(final(self).it) == *final(old(self).it),
            final(self).it.ctx() == old(self).it.ctx(),
            final(self).it.pos() - old(self).it.pos() == old(self).it.view().len() - final(self).it.view().len(),
            old(self).n == 0 ==> r is None && final(self).it == old(self).it && final(self).n == 0,
            old(self).n > 0 ==> final(self).n == old(self).n - 1 && final(self).it.view() == skip(old(self).it.view(), 1)
               && r == (if old(self).it.view().len() > 0 { Some(old(self).it.view()[0]) } else { None })
    {
        if self.n == 0 { None } else { self.n -= 1; self.it.next() }
    }
    /// FromIterator / collect
    pub fn collect<C: FromIter<I::Item>>(self) -> (r: C)
        requires self.it.wf()
        ensures r.items() == take(old(self.it).view(), self.n as int), final(self.it).wf(), final(self.it).ctx() == old(self.it).ctx(),
            final(self.it).view() == skip(old(self.it).view(), self.n as int),
            final(self.it).pos() - old(self.it).pos() == old(self.it).view().len() - final(self.it).view().len(),
    {
        let mut s = self;
        let mut c = C::empty();
        let ghost full = s.it.view();
        let ghost n = s.n;
        let ghost mut k: int = 0;
        loop
            invariant_except_break s.n == n - k, s.it.view() == skip(full, k),
            invariant
                0 <= k <= n, k <= full.len(),
                s.it.wf(), *final(s.it) == *final(self.it), s.it.ctx() == self.it.ctx(), full == self.it.view(), n == self.n,
                c.items() == full.take(k),
                s.it.pos() - self.it.pos() == full.len() - s.it.view().len(),
            ensures c.items() == take(full, n as int), s.it.view() == skip(full, n as int),
            decreases s.n
        {
            match s.next_() {
                None => { assert(full.take(k) =~= take(full, n as int)); break; }
                Some(x) => { c.add(x); proof { assert(full.take(k).push(x) =~= full.take(k + 1)); k = k + 1; } }
            }
        }
        c
    }
}
pub trait FromIter<A>: Sized {
    spec fn items(&self) -> Seq<A>;
    fn empty() -> (r: Self) ensures r.items() == Seq::<A>::empty();
    fn add(&mut self, a: A) ensures final(self).items() == old(self).items().push(a);
}
impl<A> FromIter<A> for Vec<A> {
    open spec fn items(&self) -> Seq<A> { self@ }
    fn empty() -> (r: Self) { Vec::new() }
    fn add(&mut self, a: A) { self.push(a) }
}
impl FromIter<char> for String {
    open spec fn items(&self) -> Seq<char> { self@ }
    fn empty() -> (r: Self) { String::new() }
    fn add(&mut self, a: char) { self.push(a) }
}
impl String {
    pub fn from_iter<'t, I: Iterator<Item = char>>(t: Take<'t, I>) -> (r: String)
        requires t.it.wf()
        ensures r@ == take(old(t.it).view(), t.n as int), final(t.it).wf(), final(t.it).ctx() == old(t.it).ctx(),
            final(t.it).view() == skip(old(t.it).view(), t.n as int),
            final(t.it).pos() - old(t.it).pos() == old(t.it).view().len() - final(t.it).view().len(),
    { t.collect() }
}

// ---------------------------------------------------------------- strings and byte strings
#[verifier::external_body]
pub struct String { _p: () }
impl String {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r.view() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self).view() == old(self).view().push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    /// bytes, not characters
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8_len(self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Seq::<char>::empty() { unimplemented!() }
}
impl Abs for String { type V = Seq<char>; open spec fn abs(&self) -> Seq<char> { self@ } }
impl Abs for char { type V = char; open spec fn abs(&self) -> char { *self } }
impl Abs for u8 { type V = u8; open spec fn abs(&self) -> u8 { *self } }
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
#[verifier::external_body]
pub proof fn utf8_len_zero(s: Seq<char>) ensures utf8_len(s) == 0 <==> s.len() == 0, utf8_len(s) >= s.len() {}
pub proof fn utf8_zero() ensures forall|s: Seq<char>| #![trigger utf8_len(s)] utf8_len(s) == 0 <==> s.len() == 0
{ assert forall|s: Seq<char>| #![trigger utf8_len(s)] utf8_len(s) == 0 <==> s.len() == 0 by { utf8_len_zero(s) } }
#[verifier::external_body]
pub struct Str { _p: () }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8_len(self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, c: char) -> (r: bool) ensures r == self.view().contains(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Items<char>) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn same_(&self, o: &String) -> (r: bool) ensures r == (self.view() == o.view()) { unimplemented!() }
}
/// `str::chars`, `slice::iter`: a finite list of items
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { _p: PhantomData<T> }
impl<T: Copy> Items<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
            old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() == old(self).view().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    pub fn cloned(self) -> (r: Items<T>) ensures r == self { self }
    pub fn copied(self) -> (r: Items<T>) ensures r == self { self }
}
/// the reference loop of `Iterator::eq` (core::iter::traits::iterator), on `TAG.chars().eq(input.take(n))`
pub trait Same: Sized + Copy { fn same(a: Self, b: Self) -> (r: bool) ensures r == (a == b); }
impl Same for char { fn same(a: char, b: char) -> (r: bool) { a == b } }
impl Same for u8 { fn same(a: u8, b: u8) -> (r: bool) { a == b } }
impl<T: Same> Items<T> {
    pub fn eq<'t, I: Iterator<Item = T>>(self, o: Take<'t, I>) -> (r: bool)
        requires o.it.wf()
        ensures r == (self.view() == take(old(o.it).view(), o.n as int)), final(o.it).wf(), final(o.it).ctx() == old(o.it).ctx(),
            r ==> final(o.it).view() == skip(old(o.it).view(), o.n as int),
            final(o.it).pos() - old(o.it).pos() == old(o.it).view().len() - final(o.it).view().len(),
    {
        let mut a = self;
        let mut b = o;
        let ghost av = self.view();
        let ghost bv = o.it.view();
        let ghost n = o.n;
        let ghost mut k: int = 0;
        loop
            invariant
                0 <= k <= n, b.n == n - k, k <= av.len(), k <= bv.len(), av == self.view(), bv == o.it.view(), n == o.n,
                a.view() == av.skip(k), b.it.view() == skip(bv, k), av.take(k) == bv.take(k),
                b.it.wf(), *final(b.it) == *final(o.it), b.it.ctx() == o.it.ctx(),
                b.it.pos() - o.it.pos() == bv.len() - b.it.view().len(),
            decreases a.view().len()
        {
            match a.next() {
                None => {
                    let r = match b.next_() { None => true, Some(_) => false };
                    proof {
                        assert(av == av.take(k));
                        if r { if n == k { assert(take(bv, n as int) =~= bv.take(k)); assert(skip(bv, n as int) =~= skip(bv, k)); } else { assert(bv.len() == k); assert(take(bv, n as int) =~= bv.take(k)); assert(skip(bv, n as int) =~= skip(bv, k + 1)); } }
                        else { assert(take(bv, n as int).len() > k); }
                    }
                    return r;
                }
                Some(x) => match b.next_() {
                    None => { assert(take(bv, n as int).len() == k); assert(av.len() > k); return false; }
                    Some(y) => {
                        assert(av[k] == x); assert(take(bv, n as int)[k] == y);
                        if !T::same(x, y) { return false; }
                        proof { assert(av.take(k + 1) =~= av.take(k).push(x)); assert(bv.take(k + 1) =~= bv.take(k).push(y)); assert(av.skip(k).skip(1) =~= av.skip(k + 1)); k = k + 1; }
                    }
                },
            }
        }
    }
}
/// `const TAG: &'static str` as a type: Verus has no const generics of reference type
pub trait StrConst: Sized {
    spec fn spec() -> Seq<char>;
    fn get() -> (r: &'static Str) ensures r.view() == Self::spec();
    open spec fn dvs() -> DV { DV::Str(Self::spec()) }
}
#[verifier::external_body]
pub struct Bytes { _p: () }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, c: &u8) -> (r: bool) ensures r == self.view().contains(*c) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<u8>) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn same_(&self, o: &Vec<u8>) -> (r: bool) ensures r == (self.view() == o@) { unimplemented!() }
}
pub trait BytesConst: Sized {
    spec fn spec() -> Seq<u8>;
    fn get() -> (r: &'static Bytes) ensures r.view() == Self::spec();
    open spec fn dvs() -> DV { DV::Bytes(Self::spec()) }
}

// ---------------------------------------------------------------- conversions
pub trait AsRef<R> {
    spec fn ref_post(&self, r: &R) -> bool;
    fn as_ref(&self) -> (r: &R) ensures self.ref_post(r);
}
pub trait AsMut<R> {
    #[verifier::prophetic]
    spec fn mut_post(before: &Self, after: &Self, r: &R, last: &R) -> bool;
    fn as_mut(&mut self) -> (r: &mut R) ensures Self::mut_post(old(self), final(self), r, final(r));
}
/// From / Into: the value converted into is the one parsed
pub trait From<A>: Sized {
    spec fn from_post(a: A, r: Self) -> bool;
    fn from(a: A) -> (r: Self) ensures Self::from_post(a, r);
}
pub trait Into<R>: Sized {
    spec fn into_post(self, r: R) -> bool;
    fn into(self) -> (r: R) ensures self.into_post(r);
}
impl<A, R: From<A>> Into<R> for A {
    open spec fn into_post(self, r: R) -> bool { R::from_post(self, r) }
    fn into(self) -> (r: R) { R::from(self) }
}
impl<E: Error> From<E> for Report {
    open spec fn from_post(e: E, r: Report) -> bool { r.view() == e.ev() }
    fn from(e: E) -> (r: Report) { e.into_report() }
}
pub trait TryFrom<A: Abs>: Sized + Abs {
    type Error: Error;
    spec fn tconv(v: A::V) -> Option<Self::V>;
    spec fn tcerr(v: A::V) -> ErrV;
    fn try_from(a: A) -> (r: core::result::Result<Self, Self::Error>)
        ensures r is Ok <==> Self::tconv(a.abs()) is Some, r is Ok ==> r->Ok_0.abs() == Self::tconv(a.abs())->0, r is Err ==> r->Err_0.ev() == Self::tcerr(a.abs());
}
/// TryInto: std's blanket impl over TryFrom
pub trait TryInto<Q: Abs>: Sized + Abs {
    type Error: Error;
    spec fn conv(v: Self::V) -> Option<Q::V>;
    spec fn cerr(v: Self::V) -> ErrV;
    fn try_into(self) -> (r: core::result::Result<Q, Self::Error>)
        ensures r is Ok <==> Self::conv(self.abs()) is Some, r is Ok ==> r->Ok_0.abs() == Self::conv(self.abs())->0, r is Err ==> r->Err_0.ev() == Self::cerr(self.abs());
}
impl<A: Abs, Q: TryFrom<A>> TryInto<Q> for A {
    type Error = <Q as TryFrom<A>>::Error;
    open spec fn conv(v: Self::V) -> Option<Q::V> { Q::tconv(v) }
    open spec fn cerr(v: Self::V) -> ErrV { Q::tcerr(v) }
    fn try_into(self) -> (r: core::result::Result<Q, Self::Error>) { Q::try_from(self) }
}
/// `str::parse`: a function of the text, otherwise unspecified
pub trait FromStr: Sized {
    type Err: Error;
    spec fn of(s: Seq<char>) -> Option<Self>;
    spec fn oerr(s: Seq<char>) -> ErrV;
    fn from_str(s: &String) -> (r: core::result::Result<Self, Self::Err>)
        ensures r is Ok <==> Self::of(s@) is Some, r is Ok ==> r->Ok_0 == Self::of(s@)->0, r is Err ==> r->Err_0.ev() == Self::oerr(s@);
}
#[verifier::external_body]
pub struct ParseIntError { _p: () }
impl Error for ParseIntError {
    uninterp spec fn ev(&self) -> ErrV;
    #[verifier::external_body]
    fn into_report(self) -> (r: Report) { unimplemented!() }
}
impl FromStr for usize {
    type Err = ParseIntError;
    uninterp spec fn of(s: Seq<char>) -> Option<usize>;
    uninterp spec fn oerr(s: Seq<char>) -> ErrV;
    #[verifier::external_body]
    fn from_str(s: &String) -> (r: core::result::Result<usize, ParseIntError>) { unimplemented!() }
}
impl Abs for usize { type V = usize; open spec fn abs(&self) -> usize { *self } }
