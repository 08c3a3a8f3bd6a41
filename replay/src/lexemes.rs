//! Text and byte lexemes: C04 (agreement), C05, C06, C07, C18 (messages).
use crate::obs::{check_agree, check_parse, show, CTX0, CTXS};
use crate::util::*;
use nommy::{bytes, text};

fn prefix<T: PartialEq + Clone>(t: &[T], s: &[T]) -> bool { s.len() >= t.len() && s[..t.len()] == t[..] }
/// alphabet for a set or tag: its own items, and neighbours of them
fn alpha_c(t: &str) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for c in t.chars().take(3) { if !v.contains(&c) { v.push(c) } }
    for c in "xé".chars() { if v.len() < 5 && !v.contains(&c) { v.push(c) } }
    if let Some(c) = t.chars().next() { let n = std::char::from_u32(c as u32 ^ 0x20).unwrap_or('~'); if !v.contains(&n) { v.push(n) } }
    v
}
fn alpha_b(t: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for c in t.iter().take(3) { if !v.contains(c) { v.push(*c) } }
    for c in b"x\0" { if v.len() < 5 && !v.contains(c) { v.push(*c) } }
    if let Some(c) = t.first() { let n = c ^ 0x80; if !v.contains(&n) { v.push(n) } }
    v
}
const LENS: [usize; 22] = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097, 70000];
/// long inputs: runs of one item, broken near powers of two, and random text
fn long<T: Copy>(alpha: &[T], tag: &[T], seed: u64, thorough: bool) -> Vec<Vec<T>> {
    let mut r = Rng(seed);
    let mut out = vec![];
    for &n in LENS.iter() {
        if n > 5000 && !thorough && alpha.len() > 4 { continue }
        for k in 0..2 { let a = alpha[k % alpha.len()]; let b = alpha[alpha.len() - 1]; let mut v = vec![a; n]; v.push(b); v.push(a); out.push(v); }
        if n < 5000 { let mut v: Vec<T> = vec![]; for i in 0..n { v.push(alpha[(i * 7 + i / 3) % alpha.len()]) } out.push(v); }
    }
    for _ in 0..if thorough { 400 } else { 60 } { let n = r.below(300); out.push((0..n).map(|_| alpha[r.below(alpha.len())]).collect()); }
    // the tag with one item changed, dropped or repeated, and the tag followed by itself
    for i in 0..tag.len().min(70) {
        for a in alpha { let mut v = tag.to_vec(); v[i] = *a; out.push(v.clone()); v.push(alpha[0]); out.push(v); }
        let mut v = tag.to_vec(); v.remove(i); out.push(v.clone()); v.push(alpha[0]); out.push(v);
    }
    out.push(tag.to_vec()); let mut v = tag.to_vec(); v.extend_from_slice(tag); out.push(v);
    let mut v = tag.to_vec(); v.push(alpha[0]); out.push(v);
    out
}
fn ins<T: Copy>(alpha: &[T], tag: &[T], thorough: bool, seed: u64) -> (Vec<Vec<T>>, Vec<Vec<T>>) {
    (all(alpha, if thorough { 6 } else if alpha.len() > 4 { 4 } else { 5 }), long(alpha, tag, seed, thorough))
}
fn run<T: PartialEq>(s: &[T], f: impl Fn(&T) -> bool) -> usize { s.iter().take_while(|c| f(c)).count() }

macro_rules! texts { ($m:ident $tho:expr, $seed:expr) => {
    $m!($tho, $seed, "", "a", "ab", "aab", "abab", "é", "aé", "éa", "日本", "日本語テ", "\r\n", " ", "\u{0}", "𝄞", "e\u{301}", "struct", "ab  ", "  a ", "ab\u{0}\u{0}\u{0}", "AbCdEfGhIj", "ÀÉñß", "abcdefghijklmnopqrstuvwxyz", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")
} }
macro_rules! sets { ($m:ident $tho:expr, $seed:expr) => {
    $m!($tho, $seed, "", "a", "ab", "ba", "é", "aé", "日本", "\r\n", "\n", "\\\"", "\u{0}", "𝄞a", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789", "aab")
} }
macro_rules! btexts { ($m:ident $tho:expr, $seed:expr) => {
    $m!($tho, $seed, b"", b"a", b"ab", b"aab", b"abab", b"\r\n", b"\x00", b"\xff\xfe", b"a\x80", b"struct", b"ab  ", b"  a ", b"abcd\x00", b"\x00\x00\x00\x00\x00\x00", b"AbCdEfGhIj", b"abcdefghijklmnopqrstuvwxyz", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")
} }
macro_rules! bsets { ($m:ident $tho:expr, $seed:expr) => {
    $m!($tho, $seed, b"", b"a", b"ab", b"ba", b"\xff\x00", b"\r\n", b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", b"0123456789", b"aab")
} }

pub fn c05(tho: bool, seed: u64, errors: bool) {
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let t: Vec<char> = $x.chars().collect();
        let (a, b) = ins(&alpha_c($x), &t, $tho, $seed);
        let o = |s: &[char]| if prefix(&t, s) { Some((t.len(), String::new())) } else { None };
        let e = |s: &[char]| vec![format!("failed to parse tag {:?}, found {:?}", $x, s.iter().take(t.len()).collect::<String>())];
        let e: Option<&dyn Fn(&[char]) -> Vec<String>> = if errors { Some(&e) } else { None };
        check_parse::<char, text::Tag<$x>>(&format!("text::Tag<{:?}>", $x), &a, &CTXS, &o, &|_| String::new(), e);
        check_parse::<char, text::Tag<$x>>(&format!("text::Tag<{:?}>", $x), &b, &CTX0, &o, &|_| String::new(), e);
    } )* } }
    texts!(t tho, seed);
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let t: Vec<u8> = $x.to_vec();
        let (a, b) = ins(&alpha_b($x), &t, $tho, $seed);
        let o = |s: &[u8]| if prefix(&t, s) { Some((t.len(), String::new())) } else { None };
        let e = |s: &[u8]| vec![format!("failed to parse tag {:?}, found {:?}", &t[..], &s[..t.len().min(s.len())])];
        let e: Option<&dyn Fn(&[u8]) -> Vec<String>> = if errors { Some(&e) } else { None };
        check_parse::<u8, bytes::Tag<$x>>(&format!("bytes::Tag<{:?}>", $x), &a, &CTXS, &o, &|_| String::new(), e);
        check_parse::<u8, bytes::Tag<$x>>(&format!("bytes::Tag<{:?}>", $x), &b, &CTX0, &o, &|_| String::new(), e);
    } )* } }
    btexts!(t tho, seed);
}
/// nothing behind the tag is touched: the source is asked for the tag's items only
pub fn c05_lazy() {
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        label(&format!("text::Tag<{:?}>", $x));
        let t: Vec<char> = $x.chars().collect();
        for extra in 0..3 {
            let mut s = t.clone(); for _ in 0..extra { s.push('z') }
            case(|| format!("items taken from the source, input {}", show(&s)), true);
            let src = Src::new(&s); let h = src.clone();
            let r = guard(move || { let mut b = nommy::IntoBuf::into_buf(src); let ok = <text::Tag<$x> as nommy::Parse<char>>::parse(&mut b).is_ok(); (ok, h.pulled()) });
            match r { Ok((true, n)) if n == t.len() => {} Ok((ok, n)) => fail(format!("parse ok={}, {} items taken, the tag has {}", ok, n, t.len())), Err(p) => fail(format!("panicked: {}", p)) }
        }
    } )* } }
    texts!(t false, 0);
}
pub fn c06(tho: bool, seed: u64, errors: bool) {
    let nf = |_: &[char]| vec!["no characters found".to_string()];
    let nf: Option<&dyn Fn(&[char]) -> Vec<String>> = if errors { Some(&nf) } else { None };
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let set: Vec<char> = $x.chars().collect();
        let (mut a, b) = ins(&alpha_c($x), &[], $tho, $seed);
        a.extend(all(&alpha_c($x)[..2.min(alpha_c($x).len())], 8));
        let str_of = |s: &[char]| s.iter().collect::<String>();
        let inn = |s: &[char]| run(s, |c| set.contains(c));
        let out = |s: &[char]| run(s, |c| !set.contains(c));
        let e = |s: &[char]| vec![if s.is_empty() { format!("error parsing one of {:?}, reached EOF", $x) } else { format!("error parsing one of {:?}, found {:?}", $x, s[0]) }];
        let e: Option<&dyn Fn(&[char]) -> Vec<String>> = if errors { Some(&e) } else { None };
        for (i, c) in &[(&a, &CTXS[..]), (&b, &CTX0[..])] {
            check_parse::<char, text::OneOf<$x>>(&format!("text::OneOf<{:?}>", $x), i, c, &|s| if !s.is_empty() && set.contains(&s[0]) { Some((1, s[0].to_string())) } else { None }, &|p| { let c: char = p.into(); c.to_string() }, e);
            check_parse::<char, text::AnyOf<$x>>(&format!("text::AnyOf<{:?}>", $x), i, c, &|s| { let n = inn(s); Some((n, str_of(&s[..n]))) }, &|p| p.into(), None);
            check_parse::<char, text::AnyOf1<$x>>(&format!("text::AnyOf1<{:?}>", $x), i, c, &|s| { let n = inn(s); if n == 0 { None } else { Some((n, str_of(&s[..n]))) } }, &|p| p.into(), nf);
            check_parse::<char, text::WhileNot1<$x>>(&format!("text::WhileNot1<{:?}>", $x), i, c, &|s| { let n = out(s); if n == 0 { None } else { Some((n, str_of(&s[..n]))) } }, &|p| p.into(), nf);
        }
        let sweep: Vec<Vec<char>> = (0..0x110000u32).filter_map(std::char::from_u32).filter(|c| $tho || (*c as u32) < 0x3000 || (*c as u32) % 61 == 0 || set.contains(c)).map(|c| vec![c]).collect();
        check_parse::<char, text::OneOf<$x>>(&format!("text::OneOf<{:?}>", $x), &sweep, &CTX0, &|s| if set.contains(&s[0]) { Some((1, s[0].to_string())) } else { None }, &|p| { let c: char = p.into(); c.to_string() }, e);
    } )* } }
    sets!(t tho, seed);
    // AnyOf1 into a number: exactly when the matched text spells one
    macro_rules! t { ($($x:literal),*) => { $( {
        let set: Vec<char> = $x.chars().collect();
        let mut i = all(&['0', '1', '9', '+', '-', 'a', ' '], if tho { 6 } else { 5 });
        for s in &["18446744073709551615", "18446744073709551616", "018446744073709551615", "00000000000000000000000000000007", "99999999999999999999", "4294967296", "12345678901234567890"] { i.push(s.chars().collect()); i.push(s.chars().chain(" 1".chars()).collect()); }
        let num = |s: &str| match s.parse::<usize>() { Ok(n) => n.to_string(), Err(e) => e.to_string() };
        check_parse::<char, text::AnyOf1<$x>>(&format!("text::AnyOf1<{:?}> into usize", $x), &i, &CTX0, &|s| { let n = run(s, |c| set.contains(c)); if n == 0 { None } else { Some((n, num(&s[..n].iter().collect::<String>()))) } }, &|p| { let r: Result<usize, _> = std::convert::TryFrom::try_from(p); match r { Ok(n) => n.to_string(), Err(e) => e.to_string() } }, None);
    } )* } }
    t!("0123456789", "0123456789+", "-0123456789", "0123456789abcdef ");
    let nfb = |_: &[u8]| vec!["no characters found".to_string()];
    let nfb: Option<&dyn Fn(&[u8]) -> Vec<String>> = if errors { Some(&nfb) } else { None };
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let set: Vec<u8> = $x.to_vec();
        let (mut a, b) = ins(&alpha_b($x), &[], $tho, $seed);
        a.extend(all(&alpha_b($x)[..2.min(alpha_b($x).len())], 8));
        a.extend((0..=255u8).map(|c| vec![c]));
        let inn = |s: &[u8]| run(s, |c| set.contains(c));
        let e = |s: &[u8]| vec![if s.is_empty() { format!("error parsing one of {:?}, reached EOF", &set[..]) } else { format!("error parsing one of {:?}, found {:?}", &set[..], s[0]) }];
        let e: Option<&dyn Fn(&[u8]) -> Vec<String>> = if errors { Some(&e) } else { None };
        for (i, c) in &[(&a, &CTXS[..]), (&b, &CTX0[..])] {
            check_parse::<u8, bytes::OneOf<$x>>(&format!("bytes::OneOf<{:?}>", $x), i, c, &|s| if !s.is_empty() && set.contains(&s[0]) { Some((1, format!("{}", s[0]))) } else { None }, &|p| { let c: u8 = p.into(); format!("{}", c) }, e);
            check_parse::<u8, bytes::AnyOf1<$x>>(&format!("bytes::AnyOf1<{:?}>", $x), i, c, &|s| { let n = inn(s); if n == 0 { None } else { Some((n, format!("{:?}", &s[..n]))) } }, &|p| { let v: Vec<u8> = p.into(); format!("{:?}", v) }, nfb);
        }
    } )* } }
    bsets!(t tho, seed);
}
pub fn lex_space(s: &[char]) -> usize { match s.first() { Some(' ') | Some('\t') => 1, _ => 0 } }
pub fn lex_line(s: &[char]) -> usize { match s.first() { Some('\n') => 1, Some('\r') if s.get(1) == Some(&'\n') => 2, _ => 0 } }
pub fn lex_white(s: &[char]) -> usize { lex_space(s).max(lex_line(s)) }
fn lex_inputs(tho: bool) -> Vec<Vec<char>> {
    let mut a = all(&[' ', '\t', '\n', '\r', 'x', '\u{a0}', '\u{2028}', '\u{b}'], if tho { 5 } else { 3 });
    a.extend((0..0x110000u32).filter_map(std::char::from_u32).map(|c| vec![c]));
    a.extend((0..0x110000u32).filter_map(std::char::from_u32).filter(|c| (*c as u32) < 0x3100 || *c as u32 % 17 == 0).map(|c| vec!['\r', c]));
    a.extend((0..0x110000u32).filter_map(std::char::from_u32).filter(|c| (*c as u32) < 0x3100).map(|c| vec![c, '\n']));
    a
}
pub fn c07(tho: bool, errors: bool) {
    let a = lex_inputs(tho);
    let small = all(&[' ', '\t', '\n', '\r', 'x'], 4);
    macro_rules! t { ($p:ident, $f:ident, $m:literal) => {
        let e = |_: &[char]| vec![$m.to_string()];
        let e: Option<&dyn Fn(&[char]) -> Vec<String>> = if errors { Some(&e) } else { None };
        let o = |s: &[char]| { let n = $f(s); if n > 0 { Some((n, String::new())) } else { None } };
        check_parse::<char, text::$p>(concat!("text::", stringify!($p)), &a, &CTX0, &o, &|_| String::new(), e);
        check_parse::<char, text::$p>(concat!("text::", stringify!($p)), &small, &CTXS, &o, &|_| String::new(), e);
    } }
    t!(Space, lex_space, "could not parse space");
    t!(WhiteSpace, lex_white, "could not parse whitespace");
    t!(LineEnding, lex_line, "could not parse line ending");
}
pub fn c04(tho: bool, seed: u64) {
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let t: Vec<char> = $x.chars().collect();
        let (a, b) = ins(&alpha_c($x), &t, $tho, $seed);
        check_agree::<char, text::Tag<$x>>(&format!("text::Tag<{:?}>", $x), &a, &CTXS);
        check_agree::<char, text::Tag<$x>>(&format!("text::Tag<{:?}>", $x), &b, &CTX0);
    } )* } }
    texts!(t tho, seed);
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let (a, b) = ins(&alpha_b($x), $x, $tho, $seed);
        check_agree::<u8, bytes::Tag<$x>>(&format!("bytes::Tag<{:?}>", $x), &a, &CTXS);
        check_agree::<u8, bytes::Tag<$x>>(&format!("bytes::Tag<{:?}>", $x), &b, &CTX0);
    } )* } }
    btexts!(t tho, seed);
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let (mut a, b) = ins(&alpha_c($x), &[], $tho, $seed);
        a.extend(all(&alpha_c($x)[..2.min(alpha_c($x).len())], 8));
        for (i, c) in &[(&a, &CTXS[..]), (&b, &CTX0[..])] {
            check_agree::<char, text::OneOf<$x>>(&format!("text::OneOf<{:?}>", $x), i, c);
            check_agree::<char, text::AnyOf<$x>>(&format!("text::AnyOf<{:?}>", $x), i, c);
            check_agree::<char, text::AnyOf1<$x>>(&format!("text::AnyOf1<{:?}>", $x), i, c);
            check_agree::<char, text::WhileNot1<$x>>(&format!("text::WhileNot1<{:?}>", $x), i, c);
        }
        let sweep: Vec<Vec<char>> = (0..0x110000u32).filter_map(std::char::from_u32).filter(|c| (*c as u32) < 0x3000 || (*c as u32) % 61 == 0).map(|c| vec![c]).collect();
        check_agree::<char, text::OneOf<$x>>(&format!("text::OneOf<{:?}>", $x), &sweep, &CTX0);
    } )* } }
    sets!(t tho, seed);
    macro_rules! t { ($tho:expr, $seed:expr, $($x:literal),*) => { $( {
        let (mut a, b) = ins(&alpha_b($x), &[], $tho, $seed);
        a.extend((0..=255u8).map(|c| vec![c]));
        for (i, c) in &[(&a, &CTXS[..]), (&b, &CTX0[..])] {
            check_agree::<u8, bytes::OneOf<$x>>(&format!("bytes::OneOf<{:?}>", $x), i, c);
            check_agree::<u8, bytes::AnyOf1<$x>>(&format!("bytes::AnyOf1<{:?}>", $x), i, c);
        }
    } )* } }
    bsets!(t tho, seed);
    let a = lex_inputs(tho);
    check_agree::<char, text::Space>("text::Space", &a, &CTX0);
    check_agree::<char, text::WhiteSpace>("text::WhiteSpace", &a, &CTX0);
    check_agree::<char, text::LineEnding>("text::LineEnding", &a, &CTX0);
    let small = all(&[' ', '\t', '\n', '\r', 'x'], 4);
    check_agree::<char, text::Space>("text::Space", &small, &CTXS);
    check_agree::<char, text::WhiteSpace>("text::WhiteSpace", &small, &CTXS);
    check_agree::<char, text::LineEnding>("text::LineEnding", &small, &CTXS);
}

/// the lexeme parsers end on every finite input, and do not panic
pub fn c16(seed: u64) {
    fn ends<T: Copy + PartialEq + std::fmt::Debug, P: nommy::Parse<T>>(name: &str, i: &[Vec<T>]) {
        label(name);
        for s in i { for c in &CTXS { for peek in &[false, true] {
            case(|| format!("{} {} (consumed before, looked ahead, cursor depth)={:?}", if *peek { "peek" } else { "parse" }, show(s), c), !s.is_empty());
            if let Err(p) = crate::obs::run::<T, P>(s, *c, *peek, &|_| String::new()) { fail(format!("panicked: {}", p)) }
        } } if stop_early() { return } }
    }
    let (mut i, l) = ins(&['a', 'b', '\r', '\n', ' '], &['a', 'b'], false, seed);
    i.extend(l.into_iter().filter(|x| x.len() < 400));
    ends::<char, text::Tag<"">>("text::Tag<\"\">", &i); ends::<char, text::Tag<"ab">>("text::Tag<\"ab\">", &i); ends::<char, text::Tag<"aé">>("text::Tag<\"aé\">", &i);
    ends::<char, text::OneOf<"ab">>("text::OneOf<\"ab\">", &i); ends::<char, text::OneOf<"">>("text::OneOf<\"\">", &i);
    ends::<char, text::AnyOf<"ab">>("text::AnyOf<\"ab\">", &i); ends::<char, text::AnyOf<"">>("text::AnyOf<\"\">", &i);
    ends::<char, text::AnyOf1<"ab">>("text::AnyOf1<\"ab\">", &i); ends::<char, text::AnyOf1<"">>("text::AnyOf1<\"\">", &i);
    ends::<char, text::WhileNot1<"b">>("text::WhileNot1<\"b\">", &i); ends::<char, text::WhileNot1<"">>("text::WhileNot1<\"\">", &i);
    ends::<char, text::Space>("text::Space", &i); ends::<char, text::WhiteSpace>("text::WhiteSpace", &i); ends::<char, text::LineEnding>("text::LineEnding", &i);
    ends::<char, Vec<text::WhiteSpace>>("Vec<text::WhiteSpace>", &i); ends::<char, Vec<text::WhileNot1<"b">>>("Vec<text::WhileNot1<\"b\">>", &i); ends::<char, Vec<text::AnyOf1<"ab">>>("Vec<text::AnyOf1<\"ab\">>", &i);
    let (mut i, l) = ins(b"ab\r\n ", b"ab", false, seed);
    i.extend(l.into_iter().filter(|x| x.len() < 400));
    ends::<u8, bytes::Tag<b"">>("bytes::Tag<b\"\">", &i); ends::<u8, bytes::Tag<b"ab">>("bytes::Tag<b\"ab\">", &i);
    ends::<u8, bytes::OneOf<b"ab">>("bytes::OneOf<b\"ab\">", &i); ends::<u8, bytes::AnyOf1<b"ab">>("bytes::AnyOf1<b\"ab\">", &i); ends::<u8, bytes::AnyOf1<b"">>("bytes::AnyOf1<b\"\">", &i); ends::<u8, Vec<bytes::AnyOf1<b"ab">>>("Vec<bytes::AnyOf1<b\"ab\">>", &i);
}
