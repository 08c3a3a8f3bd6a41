//! Running one parser on one input, in several surroundings.
use crate::util::*;
use nommy::{Buffer, IntoBuf, Parse};

#[derive(Debug, Clone, PartialEq)]
pub struct Obs<T> { pub ok: bool, pub rest: Vec<T>, pub val: String, pub err: Vec<String>, pub parent: bool }

/// where the parser runs: (items consumed before, items looked ahead, cursor depth)
pub type Ctx = (usize, usize, usize);
pub const CTXS: [Ctx; 6] = [(0, 0, 0), (0, 1, 0), (1, 2, 0), (0, 0, 1), (1, 3, 1), (2, 0, 2)];
pub const CTX0: [Ctx; 1] = [(0, 0, 0)];

fn tail<T: Copy, B: Buffer<T>>(b: &mut B, n: usize) -> Vec<T> {
    let mut v = vec![];
    while let Some(x) = b.next() { v.push(x); if v.len() > n + 4 { break } }
    v
}
fn at<T: Copy, B: Buffer<T>, R>(b: &mut B, n: usize, f: impl FnOnce(&mut B) -> (bool, String, Vec<String>, R)) -> (Obs<T>, R) {
    let (ok, val, err, r) = f(b);
    let rest = tail(b, n);
    (Obs { ok, rest, val, err, parent: true }, r)
}
fn go<T: Copy + PartialEq, P: Parse<T>, B: Buffer<T>>(b: &mut B, s: &[T], peek: bool, v: &dyn Fn(P) -> String) -> Obs<T> {
    at(b, s.len(), |b| {
        if peek { (P::peek(b), String::new(), vec![], ()) }
        else { match P::parse(b) { Ok(p) => (true, v(p), vec![], ()), Err(e) => (false, String::new(), e.chain().map(|c| c.to_string()).collect(), ()) } }
    }).0
}
pub fn run<T: Copy + PartialEq, P: Parse<T>>(s: &[T], ctx: Ctx, peek: bool, v: &dyn Fn(P) -> String) -> Result<Obs<T>, String> {
    let (pre, look, depth) = ctx;
    let filler = if s.is_empty() { None } else { Some(s[0]) };
    let mut items = vec![];
    let pre = if filler.is_some() { pre } else { 0 };
    for _ in 0..pre { items.push(filler.unwrap()) }
    items.extend_from_slice(s);
    let src = Src::hinted(&items, (items.len() + look + depth) % 2 == 1);
    guard(move || {
        let mut b = src.into_buf();
        if look > 0 { b.peek_ahead(look - 1); }
        match depth {
            0 => { for _ in 0..pre { b.next(); } go::<T, P, _>(&mut b, s, peek, v) }
            1 => {
                let mut o;
                { let mut c = b.cursor(); for _ in 0..pre { c.next(); } o = go::<T, P, _>(&mut c, s, peek, v); }
                o.parent = tail(&mut b, items.len()) == items;
                o
            }
            _ => {
                let mut o; let ok1;
                { let mut c = b.cursor();
                  for _ in 0..pre.min(1) { c.next(); }
                  { let mut d = c.cursor(); for _ in pre.min(1)..pre { d.next(); } o = go::<T, P, _>(&mut d, s, peek, v); }
                  ok1 = tail(&mut c, items.len()) == items[pre.min(1)..]; }
                o.parent = ok1 && tail(&mut b, items.len()) == items;
                o
            }
        }
    })
}
/// what parse must do, by an independent reference
pub type Oracle<'a, T> = &'a dyn Fn(&[T]) -> Option<(usize, String)>;
pub fn show<T: std::fmt::Debug>(s: &[T]) -> String { if s.len() > 60 { format!("{:?}..({} items)", &s[..60], s.len()) } else { format!("{:?}", s) } }

/// whether check_parse also peeks
pub static PEEKS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
pub fn check_parse<T: Copy + PartialEq + std::fmt::Debug, P: Parse<T>>(name: &str, inputs: &[Vec<T>], ctxs: &[Ctx], o: Oracle<T>, v: &dyn Fn(P) -> String, err: Option<&dyn Fn(&[T]) -> Vec<String>>) {
    label(name);
    for s in inputs {
        let e = o(s);
        for c in ctxs {
            case(|| format!("parse {} (consumed before, looked ahead, cursor depth)={:?}", show(s), c), e.is_some() || !s.is_empty());
            for peek in &[false, true][..if PEEKS.load(std::sync::atomic::Ordering::Relaxed) { 2 } else { 1 }] { match run::<T, P>(s, *c, *peek, v) {
                Err(p) => fail(format!("{}panicked: {}", if *peek { "peek " } else { "" }, p)),
                Ok(r) if *peek => {
                    if r.ok != e.is_some() { fail(format!("peek {}, expected {}", if r.ok { "succeeded" } else { "failed" }, if e.is_some() { "success" } else { "failure" })) }
                    else if !r.parent { fail("the parent of the cursor was disturbed by a peek".into()) }
                    else if let Some((n, _)) = &e { if r.rest != s[*n..] { fail(format!("peek left {}, expected {}", show(&r.rest), show(&s[*n..]))) } }
                }
                Ok(r) => match &e {
                    Some((n, val)) => {
                        if !r.ok { fail(format!("failed ({:?}), expected {:?} after {} items", r.err, val, n)) }
                        else if r.rest != s[*n..] { fail(format!("left {}, expected {}", show(&r.rest), show(&s[*n..]))) }
                        else if &r.val != val { fail(format!("yielded {}, expected {}", r.val, val)) }
                        else if !r.parent { fail("the parent of the cursor was disturbed".into()) }
                    }
                    None => {
                        if r.ok { fail(format!("succeeded with {}, expected failure", r.val)) }
                        else if !r.parent { fail("the parent of the cursor was disturbed".into()) }
                        else if let Some(f) = err { let w = f(s); if r.err != w { fail(format!("error {:?}, expected {:?}", r.err, w)) } }
                    }
                },
            } }
        }
        if stop_early() { return }
    }
}
/// peek against parse on the same input
pub fn check_agree<T: Copy + PartialEq + std::fmt::Debug, P: Parse<T>>(name: &str, inputs: &[Vec<T>], ctxs: &[Ctx]) {
    label(name);
    for s in inputs {
        for c in ctxs {
            case(|| format!("peek and parse {} (consumed before, looked ahead, cursor depth)={:?}", show(s), c), !s.is_empty());
            let a = run::<T, P>(s, *c, false, &|_| String::new());
            let b = run::<T, P>(s, *c, true, &|_| String::new());
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a.ok != b.ok { fail(format!("parse {}, peek {}", if a.ok { "succeeds" } else { "fails" }, if b.ok { "succeeds" } else { "fails" })) }
                    else if a.ok && a.rest != b.rest { fail(format!("parse leaves {}, peek leaves {}", show(&a.rest), show(&b.rest))) }
                }
                (Err(_), Err(_)) => {}
                (Err(p), _) => fail(format!("parse panicked ({}), peek did not", p)),
                (_, Err(p)) => fail(format!("peek panicked ({}), parse did not", p)),
            }
        }
        if stop_early() { return }
    }
}
