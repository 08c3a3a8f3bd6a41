//! dreplay PROPERTY TIER SEED: runs derived parsers against what their definitions mean.
#![allow(dead_code, non_camel_case_types, unused_variables)]
mod mocks;
mod obs;
mod oracle;
mod shapes;
mod util;
use nommy::Parse;
use obs::*;
use oracle::{says, Er, Oracle, Out};
use util::*;

pub trait Visit { fn visit<P: Parse<char> + std::fmt::Debug>(&mut self, name: &'static str, kind: &'static str, group: &'static str, total: bool); }

struct Run<'a> { p: &'a str, tho: bool, seed: u64, o: Oracle, only: Option<String>, base: std::collections::HashMap<String, Vec<String>>, agg: std::collections::HashMap<&'static str, bool> }

/// short inputs: everything over the shape's alphabet; longer ones: made from its grammar, then damaged
fn inputs(o: &Oracle, name: &str, tho: bool, seed: u64) -> Vec<Vec<char>> {
    let mut al = o.alphabet(name);
    al.push('x');
    let lim = if tho { 60_000 } else { 2_500 };
    let mut max = 0; let mut n = 1usize; let mut sum = 1;
    while sum < lim && max < 12 { n *= al.len(); sum += n; if sum > lim { break } max += 1 }
    let mut v = all(&al, max);
    let mut h = 0u64; for c in name.split('_').next().unwrap().bytes() { h = h.wrapping_mul(31).wrapping_add(c as u64) }
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ h);
    let junk: Vec<char> = "abcnp ,;.x".chars().collect();
    for i in 0..if tho { 20_000 } else { 1_200 } {
        let mut t: Vec<char> = o.text(name, &mut r).chars().collect();
        for _ in 0..[0, 1, 1, 2, 3, 0][i % 6] {
            let c = if r.below(3) == 0 { junk[r.below(junk.len())] } else { al[r.below(al.len())] };
            match r.below(5) {
                0 if !t.is_empty() => { let k = r.below(t.len()); t.remove(k); }
                1 if !t.is_empty() => { let k = r.below(t.len()); t[k] = c }
                2 if t.len() > 1 => { let k = r.below(t.len() - 1); t.swap(k, k + 1) }
                3 => { let k = r.below(t.len() + 1); t.truncate(k) }
                _ => { let k = r.below(t.len() + 1); t.insert(k, c) }
            }
        }
        if i % 7 == 0 { for _ in 0..r.below(4) { t.push(al[r.below(al.len())]) } }
        v.push(t);
    }
    v
}
fn st(s: &[char]) -> String { s.iter().collect() }
impl<'a> Visit for Run<'a> {
    fn visit<P: Parse<char> + std::fmt::Debug>(&mut self, name: &'static str, kind: &'static str, group: &'static str, total: bool) {
        let want = match self.p { "C13" => kind == "struct", "C14" => kind == "enum", "C15" => kind != "zero" && total, "C16" => true, "C17" => !group.is_empty() || name.starts_with("Ig"), "C18" => kind != "zero", _ => false };
        if !want || stop_early() { return }
        if let Some(n) = &self.only { if n != name { return } }
        label(name);
        let show = |p: P| format!("{:?}", p);
        let ins = inputs(&self.o, name, self.tho, self.seed);
        if self.p == "C17" && name.starts_with("Ig") { return self.parts::<P>(name, &ins) }
        let mut outs: Vec<String> = vec![];
        for (i, s) in ins.iter().enumerate() {
            let ctx = CTXS[i % CTXS.len()];
            let two = [CTX0[0], ctx];
            let ctxs: &[Ctx] = if ctx == CTX0[0] || self.p == "C17" { &CTX0 } else { &two };
            let e = self.o.run(name, s, false);
            for c in ctxs {
                match self.p {
                    "C13" | "C14" => {
                        case(|| format!("parse {:?} (consumed before, looked ahead, cursor depth)={:?}", st(s), c), !s.is_empty());
                        match (run::<char, P>(s, *c, false, &show), &e) {
                            (Err(m), _) => fail(format!("panicked: {}", m)),
                            (Ok(r), Out::Ok(n, v)) => {
                                if !r.ok { fail(format!("failed ({:?}), expected {} after {} items", r.err, v, n)) }
                                else if r.rest != s[*n..] { fail(format!("left {:?}, expected {:?}", st(&r.rest), st(&s[*n..]))) }
                                else if &r.val != v { fail(format!("yielded {}, expected {}", r.val, v)) }
                                else if !r.parent { fail("the parent of the cursor was disturbed".into()) }
                            }
                            (Ok(r), Out::Err(_)) => { if r.ok { fail(format!("succeeded with {}, leaving {:?}, expected failure", r.val, st(&r.rest))) } else if !r.parent { fail("the parent of the cursor was disturbed".into()) } }
                            (Ok(_), Out::Zero) => {}
                        }
                    }
                    "C15" => {
                        case(|| format!("peek and parse {:?} (consumed before, looked ahead, cursor depth)={:?}", st(s), c), !s.is_empty());
                        match (run::<char, P>(s, *c, false, &show), run::<char, P>(s, *c, true, &show)) {
                            (Ok(a), Ok(b)) => {
                                if a.ok != b.ok { fail(format!("parse {}, peek {}", if a.ok { "succeeds" } else { "fails" }, if b.ok { "succeeds" } else { "fails" })) }
                                else if a.ok && a.rest != b.rest { fail(format!("parse leaves {:?}, peek leaves {:?}", st(&a.rest), st(&b.rest))) }
                            }
                            (Err(_), Err(_)) => {}
                            (Err(p), _) => fail(format!("parse panicked ({}), peek did not", p)),
                            (_, Err(p)) => fail(format!("peek panicked ({}), parse did not", p)),
                        }
                    }
                    "C16" => {
                        for peek in &[false, true] {
                            let e = if *peek { self.o.run(name, s, true) } else { e.clone() };
                            case(|| format!("{} {:?} (consumed before, looked ahead, cursor depth)={:?}", if *peek { "peek" } else { "parse" }, st(s), c), !s.is_empty());
                            match (run::<char, P>(s, *c, *peek, &show), e) {
                                (Ok(_), Out::Zero) => fail("an ignore type succeeded without consuming and nothing panicked".into()),
                                (Err(m), Out::Zero) => { if m.contains("runaway") { fail(m) } }
                                (Err(m), _) => fail(format!("panicked: {}", m)),
                                (Ok(_), _) => {}
                            }
                        }
                    }
                    "C17" => {
                        let r = run::<char, P>(s, *c, false, &show); let q = run::<char, P>(s, *c, true, &show);
                        outs.push(format!("parse {:?}; peek {:?}", r, q).replace(name, group));
                    }
                    _ => {
                        case(|| format!("the error of parsing {:?} (consumed before, looked ahead, cursor depth)={:?}", st(s), c), !s.is_empty());
                        if let (Ok(r), Out::Err(er)) = (run::<char, P>(s, *c, false, &show), &e) {
                            if !r.ok { if let Err(m) = says(er, &r.err) { fail(format!("{:?}: {}", r.err, m)) } }
                        }
                    }
                }
            }
            if stop_early() { return }
        }
        if self.p == "C17" {
            match self.base.get(group) {
                None => { self.base.insert(group.into(), outs); }
                Some(b) => for (i, (x, y)) in b.iter().zip(&outs).enumerate() {
                    let s = &ins[i];
                    case(|| format!("{:?}, against the same settings in one block", st(s)), !s.is_empty());
                    if x != y { fail(format!("{} // in one block: {}", y, x)); if stop_early() { return } }
                },
            }
        }
        let _ = Er::Any;
    }
}
impl<'a> Run<'a> {
    /// ignore types add up: a definition with several is right wherever those with one of them are
    fn parts<P: Parse<char> + std::fmt::Debug>(&mut self, name: &'static str, ins: &[Vec<char>]) {
        let show = |p: P| format!("{:?}", p);
        let single = name.ends_with('1');
        let fam: &'static str = name.split('_').next().unwrap();
        let mut good = true;
        for s in ins {
            case(|| format!("parse {:?}, with several ignore types", st(s)), !s.is_empty());
            let r = match run::<char, P>(s, CTX0[0], false, &show) { Ok(r) => r, Err(_) => continue };
            let bad = match self.o.run(name, s, false) { Out::Ok(n, v) => !r.ok || r.rest != s[n..] || r.val != v, Out::Err(_) => r.ok, Out::Zero => false };
            if bad {
                if single { good = false; break }
                if *self.agg.get(fam).unwrap_or(&true) { fail(format!("{:?}, though definitions with only one of the ignore types behave as written; expected {:?}", r, self.o.run(name, s, false))) }
                if stop_early() { return }
            }
        }
        if single { let g = *self.agg.get(fam).unwrap_or(&true); self.agg.insert(fam, g && good); }
    }
}
fn main() {
    util::init();
    util::watchdog(20);
    let a: Vec<String> = std::env::args().collect();
    let tho = a.get(2).map_or(false, |t| t == "thorough");
    let seed: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Run { p: a[1].as_str(), tho, seed, o: Oracle::new(), only: a.get(4).cloned(), base: Default::default(), agg: Default::default() };
    shapes::each(&mut r);
    util::report_and_exit()
}
