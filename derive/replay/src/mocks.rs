//! Component parsers over char, written out by hand, and what they are meant to accept.
use nommy::{Buffer, Parse};
use std::convert::TryFrom;

/// items consumed on success
pub fn lex(name: &str, s: &[char]) -> Option<usize> {
    let is = |t: &str| { let t: Vec<char> = t.chars().collect(); if s.starts_with(&t) { Some(t.len()) } else { None } };
    match name {
        "A" => is("a"), "D" => is("b"), "C" => is("c"), "AB" => is("ab"), "AAC" => is("aac"), "Sp" => is(" "), "Cm" => is(","), "Sm" => is(";"), "Dt" => is("."), "PF" => is("p"),
        "AN" => match s.first() { Some('a') | Some('b') | Some('n') => Some(1), _ => None },
        "Z" => if s.first() == Some(&'b') { Some(0) } else { None },
        "ZEnd" => if s.is_empty() { Some(0) } else { None },
        _ => panic!("lexeme {}", name),
    }
}
/// a text the lexeme accepts
pub fn text(name: &str, r: usize) -> &'static str {
    match name { "A" => "a", "D" => "b", "C" => "c", "AB" => "ab", "AAC" => "aac", "Sp" => " ", "Cm" => ",", "Sm" => ";", "Dt" => ".", "PF" => "p",
        "AN" => ["a", "b", "a", "b", "n"][r % 5], _ => "" }
}
pub fn lexval(name: &str, s: &[char]) -> String { if name == "AN" { format!("AN({:?})", s[0]) } else { name.to_string() } }
pub fn lexerr(name: &str) -> String { format!("no {}", name) }
/// conversions
pub fn conv(name: &str, v: &str) -> Result<String, String> {
    match name { "TN" if v == "AN('n')" => Err("not for n".into()), n => Ok(format!("{}({})", n, v)) }
}

macro_rules! word { ($n:ident, $t:literal) => {
    #[derive(Debug, Clone, PartialEq)]
    pub struct $n;
    impl Parse<char> for $n {
        fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { if Self::peek(input) { Ok($n) } else { Err(nommy::eyre::eyre!(lexerr(stringify!($n)))) } }
        // reads as it goes: a failed attempt has read the item that was wrong
        fn peek(input: &mut impl Buffer<char>) -> bool { for c in $t.chars() { if input.next() != Some(c) { return false } } true }
    }
} }
word!(A, "a"); word!(D, "b"); word!(C, "c"); word!(AB, "ab"); word!(AAC, "aac"); word!(Sp, " "); word!(Cm, ","); word!(Sm, ";"); word!(Dt, ".");
/// looks at everything there is; a failed attempt has read all of it
#[derive(Debug, Clone, PartialEq)]
pub struct PF;
impl Parse<char> for PF {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { if Self::peek(input) { Ok(PF) } else { Err(nommy::eyre::eyre!("no PF")) } }
    fn peek(input: &mut impl Buffer<char>) -> bool {
        let mut n = 0;
        { let mut c = input.cursor(); while c.next().is_some() { n += 1 } }
        let _ = input.peek_ahead(n + 2);
        if input.peek_ahead(0) == Some('p') { input.fast_forward(1); true } else { while input.next().is_some() {} false }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct AN(pub char);
impl Parse<char> for AN {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { match input.next() { Some(c) if c == 'a' || c == 'b' || c == 'n' => Ok(AN(c)), _ => Err(nommy::eyre::eyre!("no AN")) } }
    fn peek(input: &mut impl Buffer<char>) -> bool { match input.next() { Some('a') | Some('b') | Some('n') => true, _ => false } }
}
/// succeeds without consuming
#[derive(Debug, Clone, PartialEq)]
pub struct Z;
impl Parse<char> for Z {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { if Self::peek(input) { Ok(Z) } else { Err(nommy::eyre::eyre!("no Z")) } }
    fn peek(input: &mut impl Buffer<char>) -> bool { input.peek_ahead(0) == Some('b') }
}
#[derive(Debug, Clone, PartialEq)]
pub struct ZEnd;
impl Parse<char> for ZEnd {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { if Self::peek(input) { Ok(ZEnd) } else { Err(nommy::eyre::eyre!("no ZEnd")) } }
    fn peek(input: &mut impl Buffer<char>) -> bool { input.next().is_none() }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Never;

#[derive(Debug, Clone, PartialEq)] pub struct FA(pub A);
impl From<A> for FA { fn from(a: A) -> FA { FA(a) } }
#[derive(Debug, Clone, PartialEq)] pub struct FB(pub D);
impl From<D> for FB { fn from(a: D) -> FB { FB(a) } }
#[derive(Debug, Clone, PartialEq)] pub struct FN(pub AN);
impl From<AN> for FN { fn from(a: AN) -> FN { FN(a) } }
#[derive(Debug, Clone, PartialEq)] pub struct TN(pub AN);
#[derive(Debug)] pub struct NotN;
impl std::fmt::Display for NotN { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("not for n") } }
impl std::error::Error for NotN {}
impl TryFrom<AN> for TN { type Error = NotN; fn try_from(a: AN) -> Result<TN, NotN> { if a.0 == 'n' { Err(NotN) } else { Ok(TN(a)) } } }
// conversion targets are parsers as well, that never succeed: a field's parser must not give way to its type
macro_rules! never { ($($n:ident)*) => { $(impl Parse<char> for $n {
    fn parse(_: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> { Err(nommy::eyre::eyre!(concat!(stringify!($n), " is not the parser"))) }
    fn peek(_: &mut impl Buffer<char>) -> bool { false }
})* } }
never!(FA FB FN TN);
