//! Parsers built from parsers (C04, C08-C12, C16, C18): mock components with an independent reference for each.
use crate::obs::*;
use crate::util::*;
use nommy::{Buffer, Parse, Vec1};
use std::cell::RefCell;
use std::convert::TryFrom;
use std::fmt::Debug;

/// a parser of bytes with a reference: items consumed and value shown, on success
pub trait Mock: Parse<u8> { fn refp(s: &[u8]) -> Option<(usize, String)>; fn show(self) -> String; const NAME: &'static str; fn name() -> String { Self::NAME.into() } }

macro_rules! mock { ($n:ident, |$b:ident| $parse:expr, |$p:ident| $peek:expr, |$s:ident| $refp:expr) => {
    #[derive(Debug, Clone, PartialEq)]
    pub struct $n(pub String);
    impl Parse<u8> for $n {
        fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> {
            let $b = input;
            let r: Option<String> = $parse;
            r.map($n).ok_or_else(|| nommy::eyre::eyre!(concat!("no ", stringify!($n))))
        }
        fn peek(input: &mut impl Buffer<u8>) -> bool { let $p = input; $peek }
    }
    impl Mock for $n {
        fn refp($s: &[u8]) -> Option<(usize, String)> { let r: Option<usize> = $refp; r.map(|n| (n, String::from_utf8_lossy(&$s[..n]).into_owned())) }
        fn show(self) -> String { self.0 }
        const NAME: &'static str = stringify!($n);
    }
} }
fn s1(x: u8) -> Option<String> { Some((x as char).to_string()) }
// one item 'a'
mock!(A, |b| match b.next() { Some(b'a') => s1(b'a'), _ => None }, |b| b.next() == Some(b'a'), |s| if s.first() == Some(&b'a') { Some(1) } else { None });
// 'a' then 'b', reading as it goes; a failed attempt has read one or two items
mock!(AB, |b| if b.next() == Some(b'a') && b.next() == Some(b'b') { Some("ab".into()) } else { None }, |b| b.next() == Some(b'a') && b.next() == Some(b'b'), |s| if s.starts_with(b"ab") { Some(2) } else { None });
// one item not 'c', or 'c' with the two that follow
mock!(Var, |b| match b.next() { None => None, Some(b'c') => match (b.next(), b.next()) { (Some(x), Some(y)) => Some(format!("c{}{}", x as char, y as char)), _ => None }, Some(x) => s1(x) },
    |b| match b.next() { None => false, Some(b'c') => b.next().is_some() && b.next().is_some(), Some(_) => true },
    |s| match s.first() { None => None, Some(b'c') => if s.len() >= 3 { Some(3) } else { None }, Some(_) => Some(1) });
// looks at everything; takes one item 'a'; reads everything before it fails
mock!(Far, |b| { let mut n = 0; { let mut c = b.cursor(); while c.next().is_some() { n += 1 } } let _ = b.peek_ahead(n + 3); if b.peek_ahead(0) == Some(b'a') { b.fast_forward(1); s1(b'a') } else { while b.next().is_some() {} None } },
    |b| { { let mut c = b.cursor(); while c.next().is_some() {} } if b.peek_ahead(0) == Some(b'a') { b.fast_forward(1); true } else { while b.next().is_some() {} false } },
    |s| if s.first() == Some(&b'a') { Some(1) } else { None });
// two items that are equal, skipped rather than read
mock!(Twin, |b| { let (x, y) = (b.peek_ahead(0), b.peek_ahead(1)); if x.is_some() && x == y { b.fast_forward(2); Some(format!("{0}{0}", x.unwrap() as char)) } else { b.fast_forward(1); None } },
    |b| { let r = { let mut c = b.cursor(); let x = c.next(); x.is_some() && x == c.next() }; b.fast_forward(if r { 2 } else { 3 }); r },
    |s| if s.len() >= 2 && s[0] == s[1] { Some(2) } else { None });
// never
mock!(No, |b| { b.next(); None }, |b| { b.next(); false }, |_s| None);
// separator and ignorable
mock!(Comma, |b| if b.next() == Some(b',') { s1(b',') } else { None }, |b| b.next() == Some(b','), |s| if s.first() == Some(&b',') { Some(1) } else { None });
mock!(Sp, |b| if b.next() == Some(b' ') { s1(b' ') } else { None }, |b| b.next() == Some(b' '), |s| if s.first() == Some(&b' ') { Some(1) } else { None });
// a two-item separator that reads both before it fails
mock!(Arrow, |b| { let x = b.next(); let y = b.next(); if x == Some(b',') && y == Some(b',') { Some(",,".into()) } else { None } }, |b| { let x = b.next(); let y = b.next(); x == Some(b',') && y == Some(b',') }, |s| if s.starts_with(b",,") { Some(2) } else { None });
// succeeds without consuming on 'b' and at the end of the input (C16, arrays)
mock!(ZeroB, |b| match b.peek_ahead(0) { Some(b'a') => { b.next(); s1(b'a') } Some(b'b') => Some(String::new()), _ => None }, |b| match b.peek_ahead(0) { Some(b'a') => { b.next(); true } Some(b'b') => true, _ => false },
    |s| match s.first() { Some(b'a') => Some(1), Some(b'b') => Some(0), _ => None });
mock!(ZeroEnd, |b| match b.next() { Some(b'a') => s1(b'a'), None => Some(String::new()), _ => None }, |b| match b.next() { Some(b'a') => true, None => true, _ => false },
    |s| match s.first() { Some(b'a') => Some(1), None => Some(0), _ => None });
// zero-width at the end only after having asked several times for more
mock!(ZeroEnd3, |b| match b.next() { Some(b'a') => s1(b'a'), None => { b.next(); b.next(); Some(String::new()) } _ => None }, |b| match b.next() { Some(b'a') => true, None => { b.next(); b.next(); true } _ => false },
    |s| match s.first() { Some(b'a') => Some(1), None => Some(0), _ => None });

/// a zero-sized value, and a wide one
#[derive(Debug, Clone, PartialEq)]
pub struct Unit;
impl Parse<u8> for Unit { fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> { if input.next() == Some(b'a') { Ok(Unit) } else { Err(nommy::eyre::eyre!("no Unit")) } } }
impl Mock for Unit { fn refp(s: &[u8]) -> Option<(usize, String)> { if s.first() == Some(&b'a') { Some((1, "u".into())) } else { None } } fn show(self) -> String { "u".into() } const NAME: &'static str = "Unit"; }
#[derive(Clone)]
pub struct Wide([u8; 200], String, [u8; 100]);
impl Parse<u8> for Wide { fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> { match input.next() { Some(c) if c != b'c' => Ok(Wide([c; 200], (c as char).to_string(), [c; 100])), _ => Err(nommy::eyre::eyre!("no Wide")) } } }
impl Mock for Wide {
    fn refp(s: &[u8]) -> Option<(usize, String)> { match s.first() { Some(c) if *c != b'c' => Some((1, (*c as char).to_string())), _ => None } }
    fn show(self) -> String { let c = self.0[0]; if self.0[..] == [c; 200][..] && self.2[..] == [c; 100][..] && self.1.as_bytes() == [c] { self.1 } else { "mangled".into() } }
    const NAME: &'static str = "Wide";
}

/// keeps the default peek
#[derive(Debug, Clone, PartialEq)]
pub struct Dft<P>(P);
impl<P: Parse<u8>> Parse<u8> for Dft<P> { fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> { P::parse(input).map(Dft) } }
impl<P: Mock> Mock for Dft<P> { fn refp(s: &[u8]) -> Option<(usize, String)> { P::refp(s) } fn show(self) -> String { self.0.show() } const NAME: &'static str = ""; fn name() -> String { format!("Dft<{}>", P::name()) } }

fn many<P: Mock>(s: &[u8]) -> (usize, Vec<String>) {
    let (mut n, mut v) = (0, vec![]);
    while let Some((k, x)) = P::refp(&s[n..]) { if k == 0 { break } n += k; v.push(x) }
    (n, v)
}
impl<P: Mock> Mock for Vec<P> {
    fn refp(s: &[u8]) -> Option<(usize, String)> { let (n, v) = many::<P>(s); Some((n, format!("{:?}", v))) }
    fn show(self) -> String { format!("{:?}", self.into_iter().map(|x| x.show()).collect::<Vec<_>>()) }
    const NAME: &'static str = ""; fn name() -> String { format!("Vec<{}>", P::name()) }
}
impl<P: Mock> Mock for Vec1<P> {
    fn refp(s: &[u8]) -> Option<(usize, String)> { P::refp(s)?; let (n, v) = many::<P>(s); Some((n, format!("{:?}", v))) }
    fn show(self) -> String { let v: Vec<P> = self.into(); v.show() }
    const NAME: &'static str = ""; fn name() -> String { format!("Vec1<{}>", P::name()) }
}
impl<P: Mock> Mock for Option<P> {
    fn refp(s: &[u8]) -> Option<(usize, String)> { Some(match P::refp(s) { Some((n, x)) => (n, format!("Some({})", x)), None => (0, "None".into()) }) }
    fn show(self) -> String { match self { Some(x) => format!("Some({})", x.show()), None => "None".into() } }
    const NAME: &'static str = ""; fn name() -> String { format!("Option<{}>", P::name()) }
}
impl<P: Mock> Mock for Box<P> {
    fn refp(s: &[u8]) -> Option<(usize, String)> { P::refp(s) }
    fn show(self) -> String { (*self).show() }
    const NAME: &'static str = ""; fn name() -> String { format!("Box<{}>", P::name()) }
}
impl<P: Mock, const N: usize> Mock for [P; N] {
    fn refp(s: &[u8]) -> Option<(usize, String)> { let (mut n, mut v) = (0, vec![]); for _ in 0..N { let (k, x) = P::refp(&s[n..])?; n += k; v.push(x) } Some((n, format!("{:?}", v))) }
    fn show(self) -> String { let mut v = vec![]; for x in std::array::IntoIter::new(self) { v.push(x.show()) } format!("{:?}", v) }
    const NAME: &'static str = ""; fn name() -> String { format!("[{}; {}]", P::name(), N) }
}
fn inputs(tho: bool, seed: u64) -> Vec<Vec<u8>> {
    let mut v = all(b"abc", if tho { 8 } else { 6 });
    let mut r = Rng(seed ^ 77);
    for _ in 0..if tho { 5000 } else { 500 } { let n = r.below(60); let k = 1 + r.below(4); v.push((0..n).map(|_| if r.below(k) == 0 { b"abc"[r.below(3)] } else { b'a' }).collect()) }
    for n in &[16usize, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300] { let mut x = vec![b'a'; *n]; v.push(x.clone()); x.push(b'b'); v.push(x) }
    v
}
fn longs(tho: bool) -> Vec<Vec<u8>> { let mut v = vec![]; for n in &[1023usize, 1024, 1025, 4097, 65535, 65536, 65537, 100_003] { if *n > 66000 && !tho { continue } let mut x = vec![b'a'; *n]; v.push(x.clone()); x.push(b'b'); x.push(b'c'); v.push(x) } v }
fn parse_ok<P: Mock>(i: &[Vec<u8>], c: &[Ctx]) { check_parse::<u8, P>(&P::name(), i, c, &|s| P::refp(s), &|p: P| p.show(), None) }
fn agree<P: Mock>(i: &[Vec<u8>], c: &[Ctx]) { check_agree::<u8, P>(&P::name(), i, c) }

macro_rules! comps { ($m:ident, $w:ident) => { $m!($w, A AB Var Far Twin No Unit Wide) } }
pub fn c08(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    macro_rules! go { ($w:ident, $($p:ident)*) => { $( parse_ok::<$w<$p>>(&i, &CTXS); )* } }
    comps!(go, Vec); comps!(go, Vec1);
    parse_ok::<Vec<Vec1<A>>>(&i, &CTXS); parse_ok::<Vec<[A; 2]>>(&i, &CTXS); parse_ok::<Vec1<[AB; 2]>>(&i, &CTXS); parse_ok::<Vec1<Box<Twin>>>(&i, &CTXS); parse_ok::<Vec<Dft<AB>>>(&i, &CTXS);
    let l = longs(tho);
    parse_ok::<Vec<A>>(&l, &CTX0); parse_ok::<Vec1<A>>(&l, &CTX0); parse_ok::<Vec<Twin>>(&l, &CTX0);
}
pub fn c09(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    macro_rules! go { ($w:ident, $($p:ident)*) => { $( parse_ok::<$w<$p>>(&i, &CTXS); )* } }
    comps!(go, Option); comps!(go, Box);
    parse_ok::<Option<Vec1<A>>>(&i, &CTXS); parse_ok::<Option<Box<AB>>>(&i, &CTXS); parse_ok::<Box<Option<AB>>>(&i, &CTXS); parse_ok::<Option<[A; 3]>>(&i, &CTXS); parse_ok::<Box<Vec<AB>>>(&i, &CTXS); parse_ok::<[Option<A>; 3]>(&i, &CTXS);
    parse_ok::<Option<[A; 300]>>(&i, &CTX0);
    // Box: same error, same peek
    boxes::<A>(&i); boxes::<AB>(&i); boxes::<Var>(&i); boxes::<Far>(&i); boxes::<Twin>(&i); boxes::<Option<A>>(&i);
}
fn boxes<P: Mock>(i: &[Vec<u8>]) {
    label(&format!("Box<{}>", P::name()));
    for s in i { for peek in &[false, true] {
        case(|| format!("{} {:?} against the boxed parser", if *peek { "peek" } else { "parse" }, s), !s.is_empty());
        let a = run::<u8, Box<P>>(s, (0, 0, 0), *peek, &|p: Box<P>| p.show()); let b = run::<u8, P>(s, (0, 0, 0), *peek, &|p: P| p.show());
        if a != b { fail(format!("{:?}, the boxed parser {:?}", a, b)) }
    } }
}
pub fn c10(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    let small: Vec<Vec<u8>> = i.iter().filter(|s| s.len() <= 4 || s.len() >= 16).cloned().collect();
    macro_rules! go { ($n:literal) => { parse_ok::<[A; $n]>(&i, &CTXS); parse_ok::<[AB; $n]>(&i, &CTXS); parse_ok::<[Var; $n]>(&i, &CTXS); parse_ok::<[Far; $n]>(&i, &CTXS); parse_ok::<[ZeroB; $n]>(&i, &CTXS); parse_ok::<[ZeroEnd; $n]>(&i, &CTXS); drops::<0, $n>(&i); drops::<500, $n>(&small); unwinds::<$n>(&small); parse_ok::<[Unit; $n]>(&small, &CTX0); parse_ok::<[Wide; $n]>(&small, &CTX0); zst::<$n>(&i); } }
    go!(0); go!(1); go!(2); go!(3); go!(4); go!(7); go!(8); go!(9); go!(16); go!(17); go!(32); go!(33); go!(64); go!(128); go!(256);
    macro_rules! all { ($($n:literal)*) => { $( parse_ok::<[A; $n]>(&small, &CTX0); parse_ok::<[Var; $n]>(&small, &CTX0); drops::<0, $n>(&small); )* } }
    all!(5 6 10 11 12 13 14 15 18 19 20 21 22 23 24 25 26 27 28 29 30 31 34 48 50 63 65 99 100 101 127 129);
    parse_ok::<[[A; 2]; 3]>(&i, &CTXS); parse_ok::<[Vec<A>; 2]>(&i, &CTX0);
    parse_ok::<[A; 1024]>(&longs(tho), &CTX0); parse_ok::<[A; 4097]>(&longs(tho), &CTX0); parse_ok::<[A; 65536]>(&longs(tho), &CTX0);
}
thread_local! { static LIVE: RefCell<(u64, std::collections::BTreeSet<u64>, Vec<String>, u64)> = RefCell::new((0, Default::default(), vec![], 0)); }
fn reg<R>(f: impl FnOnce(&mut (u64, std::collections::BTreeSet<u64>, Vec<String>, u64)) -> R) -> R { LIVE.with(|l| f(&mut l.borrow_mut())) }
/// an element that knows whether it is alive
struct D<const PAD: usize, const PANIC: bool> { magic: u64, id: u64, heap: Box<u64>, c: u8, pad: [u8; PAD] }
impl<const PAD: usize, const PANIC: bool> Drop for D<PAD, PANIC> { fn drop(&mut self) {
    let (m, id) = (self.magic, self.id);
    if m != 0xfeed_beef_dead_cafe { reg(|l| l.2.push("dropped a value that was never made".into())); std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0))); return }
    if *self.heap != id { reg(|l| l.2.push("dropped a value whose heap part is another's".into())) }
    reg(|l| if !l.1.remove(&id) { l.2.push(format!("element {} dropped twice", id)) });
} }
impl<const PAD: usize, const PANIC: bool> Parse<u8> for D<PAD, PANIC> {
    fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> {
        match input.next() { Some(c) if c != b'c' => { let id = reg(|l| { l.0 += 1; let i = l.0; l.1.insert(i); i }); Ok(D { magic: 0xfeed_beef_dead_cafe, id, heap: Box::new(id), c, pad: [c; PAD] }) } Some(_) if PANIC => panic!("the component panics"), _ => Err(nommy::eyre::eyre!("no D")) }
    }
}
struct Z;
impl Drop for Z { fn drop(&mut self) { reg(|l| if l.3 == 0 { l.2.push("more zero-sized values dropped than made".into()) } else { l.3 -= 1 }) } }
impl Parse<u8> for Z {
    fn parse(input: &mut impl Buffer<u8>) -> nommy::eyre::Result<Self> { match input.next() { Some(c) if c != b'c' => { reg(|l| l.3 += 1); Ok(Z) } _ => Err(nommy::eyre::eyre!("no Z")) } }
}
fn check_drops<R>(what: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
    reg(|l| { l.1.clear(); l.2.clear(); l.3 = 0 });
    let r = guard(f);
    let bad = reg(|l| { if !l.1.is_empty() { let m = format!("{} elements never dropped", l.1.len()); l.2.push(m) } if l.3 != 0 { let m = format!("{} elements never dropped", l.3); l.2.push(m) } l.2.clone() });
    if let Some(b) = bad.first() { fail(format!("{} ({})", b, what())) }
    match r { Ok(r) => Some(r), Err(p) => { fail(format!("panicked: {}", p)); None } }
}
fn drops<const PAD: usize, const N: usize>(i: &[Vec<u8>]) {
    type D<const PAD: usize> = self::D<PAD, false>;
    label(&format!("[_; {}] (drops{})", N, if PAD > 0 { ", big elements" } else { "" }));
    for s in i {
        case(|| format!("parse {}", show(s)), N > 0);
        check_drops(|| "parsed and dropped".into(), || {
            let mut b = nommy::IntoBuf::into_buf(s.iter().copied());
            if let Ok(a) = <[D<PAD>; N] as Parse<u8>>::parse(&mut b) {
                if reg(|l| l.1.len()) != N { fail(format!("{} elements alive while the array is", reg(|l| l.1.len()))) }
                for (k, d) in a.iter().enumerate() {
                    if d.magic != 0xfeed_beef_dead_cafe || d.c != s[k] || d.pad != [s[k]; PAD] || !reg(|l| l.1.contains(&d.id)) { fail(format!("element {} is not what was parsed", k)); }
                }
            }
        });
        case(|| format!("peek {}", show(s)), N > 0);
        check_drops(|| "peeked".into(), || { let mut b = nommy::IntoBuf::into_buf(s.iter().copied()); <[D<PAD>; N] as Parse<u8>>::peek(&mut b) });
    }
}
/// a component that panics: whatever is dropped while unwinding was made, and is dropped once
fn unwinds<const N: usize>(i: &[Vec<u8>]) {
    label(&format!("[_; {}] (drops, a component that panics)", N));
    for s in i {
        case(|| format!("parse {}", show(s)), N > 0 && s.iter().take(N).any(|c| *c == b'c'));
        reg(|l| { l.1.clear(); l.2.clear(); l.3 = 0 });
        let _ = guard(|| { let mut b = nommy::IntoBuf::into_buf(s.iter().copied()); drop(<[D<0, true>; N] as Parse<u8>>::parse(&mut b)) });
        if let Some(b) = reg(|l| l.2.first().cloned()) { fail(format!("{} (unwinding)", b)) }
    }
}
fn zst<const N: usize>(i: &[Vec<u8>]) {
    label(&format!("[zero-sized; {}] (drops)", N));
    for s in i {
        case(|| format!("parse {}", show(s)), N > 0);
        check_drops(|| "parsed and dropped".into(), || { let mut b = nommy::IntoBuf::into_buf(s.iter().copied()); if let Ok(a) = <[Z; N] as Parse<u8>>::parse(&mut b) { if reg(|l| l.3) != N as u64 { fail("elements missing while the array is alive".into()) } drop(a) } });
    }
}

// ------------------------------------------------------------------------------------------------ lists
/// conversion targets: everything, or everything but some
#[derive(Debug, Clone, PartialEq)] pub struct Any(pub String);
#[derive(Debug, Clone, PartialEq)] pub struct NotB(pub String);
#[derive(Debug)] pub struct Bad(String);
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bad {}", self.0) } }
impl std::error::Error for Bad {}
pub trait Target: Debug + PartialEq { fn of(s: &str) -> Option<String>; fn text(self) -> String; }
impl Target for Any { fn of(s: &str) -> Option<String> { Some(s.into()) } fn text(self) -> String { self.0 } }
impl Target for NotB { fn of(s: &str) -> Option<String> { if s.contains('b') { None } else { Some(s.to_uppercase()) } } fn text(self) -> String { self.0 } }
macro_rules! conv { ($($p:ident)*) => { $(
    impl TryFrom<$p> for Any { type Error = Bad; fn try_from(p: $p) -> Result<Self, Bad> { Ok(Any(p.0)) } }
    impl TryFrom<$p> for NotB { type Error = Bad; fn try_from(p: $p) -> Result<Self, Bad> { NotB::of(&p.0).map(NotB).ok_or(Bad(p.0)) } }
)* } }
conv!(A AB Var Far Twin);
fn ign<I: Mock>(s: &[u8]) -> usize { many::<I>(s).0 }
pub enum Out { List(Vec<String>, usize), Conv(String) }
fn list<P: Mock, Q: Target, S: Mock, I: Mock>(kind: usize, max: usize, s: &[u8]) -> Out {
    let (mut n, mut v) = (0usize, vec![]);
    while v.len() < max {
        // where the next element stands
        let mut t = n;
        if kind < 2 && !v.is_empty() {
            t += ign::<I>(&s[t..]);
            if kind == 1 { match S::refp(&s[t..]) { Some((k, _)) => { t += k; t += ign::<I>(&s[t..]) } None => break } }
        }
        let (k, x) = match P::refp(&s[t..]) { Some(r) => r, None => break };
        t += k;
        // with a mandatory trailing separator, an element without one is not part of the list
        if kind == 2 { let u = t + ign::<I>(&s[t..]); if S::refp(&s[u..]).is_none() { break } }
        let q = match Q::of(&x) { Some(q) => q, None => return Out::Conv(x) };
        if kind >= 2 {
            let u = t + ign::<I>(&s[t..]);
            match S::refp(&s[u..]) {
                Some((k, _)) => { n = u + k; n += ign::<I>(&s[n..]); v.push(q); continue }
                None => { if kind == 3 { v.push(q); n = u } break }
            }
        }
        n = t; v.push(q);
    }
    Out::List(v, n)
}
const KINDS: [&str; 4] = ["parse_vec", "parse_vec_seperated_by", "parse_vec_seperated_by_trailing", "parse_vec_seperated_by_maybe_trailing"];
fn call<P: Mock, Q: Target, S: Mock, I: Mock, B: Buffer<u8>>(kind: usize, max: usize, b: &mut B) -> nommy::eyre::Result<Vec<Q>> where Q: TryFrom<P, Error = Bad> {
    match kind {
        0 => nommy::vec::parse_vec::<P, Q, I, u8, B>(max, b),
        1 => nommy::vec::parse_vec_seperated_by::<P, Q, S, I, u8, B>(max, b),
        2 => nommy::vec::parse_vec_seperated_by_trailing::<P, Q, S, I, u8, B>(max, b),
        _ => nommy::vec::parse_vec_seperated_by_maybe_trailing::<P, Q, S, I, u8, B>(max, b),
    }
}
fn lists<P: Mock, Q: Target, S: Mock, I: Mock>(i: &[Vec<u8>], q: &str, maxes: &[usize]) where Q: TryFrom<P, Error = Bad> {
    for kind in 0..4 {
        label(&format!("{}<{}, {}, {}, {}>", KINDS[kind], P::name(), q, if kind == 0 { "-".into() } else { S::name() }, I::name()));
        for s in i { for max in maxes { for pre in 0..2 {
            let want = list::<P, Q, S, I>(kind, *max, s);
            case(|| format!("max {}, input {:?}{}", max, String::from_utf8_lossy(s), if pre == 1 { ", through a cursor of a buffer already looked at" } else { "" }), !s.is_empty());
            let items: Vec<u8> = if pre == 1 { let mut v = vec![b'z']; v.extend_from_slice(s); v } else { s.clone() };
            let src = Src::new(&items);
            let got = guard(|| {
                let mut b = nommy::IntoBuf::into_buf(src.clone());
                if pre == 1 {
                    b.peek_ahead(1);
                    let (r, rest) = { let mut c = b.cursor(); c.next(); let r = call::<P, Q, S, I, _>(kind, *max, &mut c); (r, c.by_ref().take(s.len() + 2).collect::<Vec<_>>()) };
                    if b.by_ref().take(items.len() + 2).collect::<Vec<_>>() != items { fail("the parent of the cursor was disturbed".into()) }
                    (r, rest)
                } else { let r = call::<P, Q, S, I, _>(kind, *max, &mut b); let rest = b.by_ref().take(s.len() + 2).collect::<Vec<_>>(); (r, rest) }
            });
            match (got, want) {
                (Err(p), _) => fail(format!("panicked: {}", p)),
                (Ok((Ok(v), rest)), Out::List(w, n)) => {
                    let v: Vec<String> = v.into_iter().map(|q| q.text()).collect();
                    if v != w { fail(format!("yielded {:?}, expected {:?}", v, w)) } else if rest != s[n..] { fail(format!("left {:?}, expected {:?}", String::from_utf8_lossy(&rest), String::from_utf8_lossy(&s[n..]))) }
                }
                (Ok((Ok(v), _)), Out::Conv(x)) => fail(format!("yielded {:?}, expected failure: {:?} does not convert", v, x)),
                (Ok((Err(e), _)), Out::List(w, _)) => fail(format!("failed ({}), expected {:?}", e, w)),
                (Ok((Err(_), _)), Out::Conv(_)) => {}
            }
        } } if stop_early() { return } }
    }
}
pub fn c11(tho: bool, seed: u64) {
    let mut i = all(b"ab, ", if tho { 8 } else { 6 });
    let mut r = Rng(seed ^ 1177);
    for _ in 0..if tho { 5000 } else { 1000 } { let n = r.below(50); i.push((0..n).map(|_| b"aaaa,,,  abc"[r.below(12)]).collect()) }
    let small = all(b"ab, ", 4);
    // lists whose later elements do not convert
    let mut late = small.clone();
    for _ in 0..if tho { 3000 } else { 500 } { let n = 1 + r.below(9); let mut x = vec![]; for k in 0..n { for _ in 0..r.below(3) / 2 { x.push(b' ') } x.push(if r.below(8) == 0 || k + 1 == n && r.below(2) == 0 { b'b' } else { b'a' }); for _ in 0..r.below(3) / 2 { x.push(b' ') } if k + 1 < n || r.below(3) == 0 { x.push(b',') } } late.push(x) }
    let m = [0, 1, 2, 3, usize::MAX];
    lists::<A, Any, Comma, Sp>(&i, "Any", &m);
    lists::<A, NotB, Comma, No>(&small, "NotB", &m);
    lists::<Var, NotB, Comma, Sp>(&late, "NotB", &[1, 2, 5, usize::MAX]);
    lists::<AB, Any, Comma, Sp>(&i, "Any", &[2, usize::MAX - 1]);
    lists::<Far, Any, Arrow, Sp>(&i, "Any", &[2, usize::MAX]);
    lists::<A, NotB, Arrow, Twin>(&small, "NotB", &[3, usize::MAX]);
    lists::<Twin, Any, Comma, Sp>(&small, "Any", &m);
    lists::<A, Any, Comma, AB>(&all(b"ab,", 7), "Any", &[usize::MAX]);
    let mut long: Vec<Vec<u8>> = vec![];
    for n in &[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 5000] {
        let mut x = vec![]; for k in 0..*n { x.push(b'a'); if k % 3 == 0 { x.push(b' ') } x.push(b','); if k % 5 == 0 { x.push(b' ') } } long.push(x.clone()); x.pop(); x.push(b'b'); long.push(x);
        let mut x = vec![b'a']; x.extend(vec![b' '; *n]); x.push(b','); x.extend(vec![b' '; *n]); x.push(b'a'); x.extend(vec![b' '; *n]); long.push(x);
        let mut x = vec![b'a'; *n]; x.push(b'b'); long.push(x);
    }
    lists::<Var, NotB, Comma, Sp>(&long[..24], "NotB", &[64, usize::MAX]); lists::<A, Any, Comma, Sp>(&long, "Any", &[1, 2, 64, 255, 256, usize::MAX]);
}

// ------------------------------------------------------------------------------------------------ parse, parse_terminated
fn top<P: Mock>(i: &[Vec<u8>]) {
    for s in i {
        for term in 0..2 {
            label(&format!("{}::<{}>", if term == 0 { "parse" } else { "parse_terminated" }, P::name()));
            let want = P::refp(s).filter(|w| term == 0 || w.0 == s.len()).map(|w| w.1);
            for how in 0..3 {
                case(|| format!("input {} given as {}", show(s), ["a counted iterator", "a slice iterator", "a Vec"][how]), !s.is_empty());
                let got = guard(|| { macro_rules! g { ($e:expr) => { if term == 0 { nommy::parse::<P, _>($e) } else { nommy::parse_terminated::<P, _>($e) } } } match how { 0 => g!(Src::new(s)), 1 => g!(s.iter().copied()), _ => g!(s.clone()) } });
                let (got, err) = match got { Ok(Ok(p)) => (Ok(Some(p.show())), vec![]), Ok(Err(e)) => (Ok(None), e.chain().map(|x| x.to_string()).collect()), Err(p) => (Err(p), vec![]) };
                if got != Ok(want.clone()) { fail(format!("{:?}, expected {:?}", got, want)) }
                else if want.is_none() && P::refp(s).is_none() {
                    // what the parser itself says
                    let e = run::<u8, P>(s, (0, 0, 0), false, &|_| String::new()).map(|o| o.err);
                    if e.as_ref() != Ok(&err) { fail(format!("error {:?}, the parser's own is {:?}", err, e)) }
                }
            }
        }
        if stop_early() { return }
    }
}
pub fn c12(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    top::<A>(&i); top::<AB>(&i); top::<Var>(&i); top::<Far>(&i); top::<Twin>(&i); top::<No>(&i); top::<ZeroB>(&i); top::<ZeroEnd>(&i); top::<Vec<AB>>(&i); top::<Vec1<Twin>>(&i); top::<Option<Var>>(&i); top::<[A; 3]>(&i); top::<Box<AB>>(&i);
    top::<Vec<A>>(&longs(tho));
}
pub fn c04(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    macro_rules! go { ($w:ident, $($p:ident)*) => { $( agree::<$w<$p>>(&i, &CTXS); )* } }
    comps!(go, Vec); comps!(go, Vec1); comps!(go, Option); comps!(go, Box); comps!(go, Dft);
    macro_rules! go { ($w:ident, $($p:ident)*) => { $( agree::<[$p; 0]>(&i, &CTXS); agree::<[$p; 1]>(&i, &CTXS); agree::<[$p; 3]>(&i, &CTXS); agree::<[$p; 64]>(&i, &CTX0); agree::<Vec<[$p; 2]>>(&i, &CTX0); agree::<Vec1<Box<$p>>>(&i, &CTX0); agree::<Option<Vec1<$p>>>(&i, &CTX0); agree::<[Option<$p>; 2]>(&i, &CTX0); )* } }
    comps!(go, Vec);
    agree::<[ZeroB; 3]>(&i, &CTXS); agree::<Box<ZeroEnd>>(&i, &CTXS);
    let l = longs(tho); agree::<Vec<A>>(&l, &CTX0); agree::<Vec1<A>>(&l, &CTX0);
}
/// ends, without panicking when the component makes progress; by panicking when it does not
pub fn c16(tho: bool, seed: u64) {
    let i = inputs(false, seed);
    macro_rules! go { ($w:ident, $($p:ident)*) => { $( ends::<$w<$p>>(&i, None); )* } }
    comps!(go, Vec); comps!(go, Vec1); comps!(go, Option); comps!(go, Box);
    ends::<[A; 3]>(&i, None); ends::<[ZeroB; 3]>(&i, None); ends::<Box<ZeroEnd>>(&i, None);
    let l = longs(tho); ends::<Vec<A>>(&l, None); ends::<Vec1<Twin>>(&l, None);
    // the first attempt that succeeds without consuming
    fn zero<P: Mock>(s: &[u8]) -> bool { let mut n = 0; loop { match P::refp(&s[n..]) { None => return false, Some((0, _)) => return true, Some((k, _)) => n += k } } }
    fn zero1<P: Mock>(s: &[u8]) -> bool { match P::refp(s) { None => false, Some((k, _)) => zero::<P>(&s[k..]) } }
    fn zero_o<P: Mock>(s: &[u8]) -> bool { match P::refp(s) { Some((0, _)) => true, _ => false } }
    macro_rules! z { ($($p:ty),*) => { $( ends::<Vec<$p>>(&i, Some(&zero::<$p>)); ends::<Vec1<$p>>(&i, Some(&zero1::<$p>)); ends::<Option<$p>>(&i, Some(&zero_o::<$p>)); )* } }
    z!(ZeroB, ZeroEnd, ZeroEnd3, Dft<ZeroB>, Dft<ZeroEnd3>, Box<ZeroEnd>, [ZeroB; 2], [A; 0]);
    // a component that itself may panic must do so no later than its outer repetition
    ends::<Vec<Vec<A>>>(&i, Some(&|s| zero::<Vec<A>>(s))); ends::<Vec<Option<A>>>(&i, Some(&|s| zero::<Option<A>>(s))); ends::<Option<Vec<A>>>(&i, Some(&|s| zero_o::<Vec<A>>(s)));
    // list helpers: an ignore parser that matches nothing
    for s in &i { for kind in 0..4 {
        label(KINDS[kind]);
        case(|| format!("ignoring ZeroB, elements Var, separators Comma, input {}", show(s)), true);
        let src = Src::new(s);
        if let Err(p) = guard(|| { let mut b = nommy::IntoBuf::into_buf(src.clone()); let _ = call::<Var, Any, Comma, ZeroB, _>(kind, usize::MAX, &mut b); }) { if p.contains("runaway") { fail("never ends".into()) } }
    } }
}
fn ends<P: Mock>(i: &[Vec<u8>], zero: Option<&dyn Fn(&[u8]) -> bool>) {
    label(&P::name());
    for s in i { for c in &[(0usize, 0usize, 0usize), (0, 2, 1)] { for peek in &[false, true] {
        let z = zero.map_or(false, |z| z(s));
        case(|| format!("{} {} (consumed before, looked ahead, cursor depth)={:?}", if *peek { "peek" } else { "parse" }, show(s), c), z || !s.is_empty());
        match run::<u8, P>(s, *c, *peek, &|p: P| p.show()) {
            Err(p) if p.contains("runaway") => fail("never ends".into()),
            Err(p) => if !z { fail(format!("panicked without a zero-width match: {}", p)) },
            Ok(_) => if z { fail("a success without consuming was not reported".into()) },
        }
    } } if stop_early() { return } }
}
pub fn c18(tho: bool, seed: u64) {
    let i = inputs(tho, seed);
    fn arr<P: Mock, const N: usize>(i: &[Vec<u8>], inner: &str) {
        let e = |s: &[u8]| { let mut n = 0; for k in 0..N { match P::refp(&s[n..]) { Some((m, _)) => n += m, None => return vec![format!("could not parse element {}", k), inner.to_string()] } } vec![] };
        check_parse::<u8, [P; N]>(&<[P; N] as Mock>::name(), i, &CTX0, &|s| <[P; N]>::refp(s), &|p| p.show(), Some(&e));
    }
    arr::<A, 1>(&i, "no A"); arr::<A, 2>(&i, "no A"); arr::<A, 3>(&i, "no A"); arr::<AB, 3>(&i, "no AB"); arr::<Var, 4>(&i, "no Var"); arr::<A, 12>(&i, "no A"); arr::<A, 130>(&i, "no A"); arr::<A, 300>(&i, "no A"); arr::<A, 70000>(&longs(tho), "no A");
    label("parse");
    for s in &i {
        case(|| format!("parse::<Vec1<AB>>, Box<AB> of {}", show(s)), !s.is_empty());
        for r in &[nommy::parse::<Vec1<AB>, _>(s.clone()).map(|_| ()), nommy::parse::<Box<AB>, _>(s.clone()).map(|_| ())] {
            if let Err(e) = r { let c: Vec<String> = e.chain().map(|x| x.to_string()).collect(); if c != ["no AB"] { fail(format!("error {:?}, expected that of the component", c)) } }
        }
    }
}
