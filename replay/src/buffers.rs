//! Buffers and cursors: C01 (isolation), C02 (fidelity, laziness), C03 (position, commit, reset).
use crate::util::*;
use nommy::{Buf, Buffer, Cursor, IntoBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Next, Peek(usize), Skip(usize), Reset, Push, Pop, Commit }
use Op::*;
const M: usize = usize::MAX;

/// what an operation let us see: (index of the operation, what)
#[derive(Clone, PartialEq, Debug)]
pub enum Seen { Item(Option<u32>), Pos(usize), Pulled(usize) }
pub type Trace = Vec<(usize, Seen)>;

trait Cur { fn pos(&self) -> Option<usize>; fn reset(&mut self); }
impl<I: Iterator> Cur for Buf<I> { fn pos(&self) -> Option<usize> { None } fn reset(&mut self) {} }
impl<'a, T, B: Buffer<T>> Cur for Cursor<'a, T, B> { fn pos(&self) -> Option<usize> { Some(self.position()) } fn reset(&mut self) { self.reset_internal(); } }

struct Run<'s> { ops: &'s [Op], src: Src<u32>, out: Trace, drain: usize, drain_all: bool }
impl<'s> Run<'s> {
    fn see<B: Cur>(&mut self, i: usize, b: &B) {
        if let Some(p) = b.pos() { self.out.push((i, Seen::Pos(p))) }
        self.out.push((i, Seen::Pulled(self.src.pulled())));
    }
    /// runs the operations from `i` on at this level; returns where the level ended and the position to commit
    fn level<B: Buffer<u32> + Cur>(&mut self, b: &mut B, mut i: usize) -> (usize, Option<usize>) {
        while i < self.ops.len() {
            match self.ops[i] {
                Next => { let x = b.next(); self.out.push((i, Seen::Item(x))); }
                Peek(k) => { let x = b.peek_ahead(k); self.out.push((i, Seen::Item(x))); }
                Skip(k) => b.fast_forward(k),
                Reset => b.reset(),
                Push => {
                    let (j, commit);
                    { let mut c = b.cursor(); let x = self.level_cur(&mut c, i + 1); j = x.0; commit = x.1; }
                    if let Some(p) = commit { b.fast_forward(p) }
                    i = j;
                }
                Pop => { if self.drain_all { self.drain(b, i) } return (i, None) }
                Commit => return (i, b.pos()),
            }
            if i < self.ops.len() { self.see(i, b); }
            i += 1;
        }
        self.drain(b, self.ops.len());
        (self.ops.len(), None)
    }
    fn level_cur<B: Buffer<u32>>(&mut self, c: &mut Cursor<u32, B>, i: usize) -> (usize, Option<usize>) { self.see(i - 1, c); self.level(c, i) }
    fn drain<B: Buffer<u32>>(&mut self, b: &mut B, at: usize) {
        for _ in 0..self.drain { let x = b.next(); self.out.push((at, Seen::Item(x))); }
    }
}
fn exec(items: &[u32], ops: &[Op], drain_all: bool) -> Result<Trace, String> {
    let src = Src::hinted(items, (items.len() + ops.len()) % 2 == 1);
    guard(|| {
        let mut b = src.clone().into_buf();
        let mut r = Run { ops, src: src.clone(), out: vec![], drain: items.len() + 1, drain_all };
        r.level(&mut b, 0);
        r.out
    })
}
/// the reference: positions of nested readers over one sequence
fn model(items: &[u32], ops: &[Op], drain_all: bool) -> Trace {
    let n = items.len();
    let mut out = vec![];
    let mut st: Vec<(usize, usize)> = vec![(0, 0)];
    let mut pulled = 0;
    fn abs(f: (usize, usize)) -> usize { f.0.saturating_add(f.1) }
    macro_rules! next { ($i:expr) => { {
        let root = st.len() == 1; let f = st.last_mut().unwrap(); let a = abs(*f);
        pulled = pulled.max(a.saturating_add(1).min(n));
        if a < n { f.1 += 1; out.push(($i, Seen::Item(Some(items[a])))) } else { let _ = root; out.push(($i, Seen::Item(None))) }
    } } }
    macro_rules! skip { ($k:expr) => { {
        let root = st.len() == 1; let f = st.last_mut().unwrap(); f.1 = f.1.saturating_add($k);
        if root { f.1 = f.1.min(n); pulled = pulled.max(f.1) }
    } } }
    let mut i = 0;
    while i < ops.len() {
        match ops[i] {
            Next => next!(i),
            Peek(k) => { let a = abs(*st.last().unwrap()).saturating_add(k); pulled = pulled.max(a.saturating_add(1).min(n)); out.push((i, Seen::Item(items.get(a).cloned()))) }
            Skip(k) => skip!(k),
            Reset => { if st.len() > 1 { st.last_mut().unwrap().1 = 0 } }
            Push => { let a = abs(*st.last().unwrap()); st.push((a, 0)) }
            Pop => { if drain_all { for _ in 0..n + 1 { next!(i) } } st.pop(); }
            Commit => { let p = st.pop().unwrap().1; skip!(p) }
        }
        // what is seen after an operation is the position of the level now on top
        if st.len() > 1 { out.push((i, Seen::Pos(st.last().unwrap().1))) }
        out.push((i, Seen::Pulled(pulled)));
        i += 1;
    }
    while !st.is_empty() { for _ in 0..n + 1 { next!(ops.len()) } st.pop(); }
    out
}
fn balanced(ops: &[Op]) -> bool {
    let mut d = 0i32;
    for o in ops { match o { Push => { d += 1; if d > 3 { return false } } Pop | Commit => { d -= 1; if d < 0 { return false } } Reset => if d == 0 { return false }, _ => {} } }
    true
}
/// every script over `alpha` up to the given length, then random longer ones
fn scripts(alpha: &[Op], len: usize, seed: u64, n: usize, max: usize, mut f: impl FnMut(&[Op], &[u32]) -> bool) {
    let srcs: Vec<Vec<u32>> = [0usize, 1, 2, 5].iter().map(|n| (0..*n as u32).map(|i| 100 + i * i).collect()).collect();
    let mut idx = vec![0usize; 0];
    // odometer over lengths
    for l in 1..=len {
        idx.clear(); idx.resize(l, 0);
        loop {
            let ops: Vec<Op> = idx.iter().map(|i| alpha[*i]).collect();
            if balanced(&ops) { for s in &srcs { if f(&ops, s) { return } } }
            let mut k = l; 
            loop { if k == 0 { break } k -= 1; idx[k] += 1; if idx[k] < alpha.len() { break } idx[k] = 0; if k == 0 { k = usize::MAX; break } }
            if k == usize::MAX { break }
        }
    }
    let mut r = Rng(seed ^ 0x5eed);
    for _ in 0..n {
        let big = r.below(8) == 0;
        let len = r.below(if big { 90 } else { 20 });
        let s: Vec<u32> = (0..len as u32).map(|i| 7 + i * 3).collect();
        let mut ops = vec![]; let mut d = 0;
        for _ in 0..1 + r.below(max) {
            let o = match alpha[r.below(alpha.len())] {
                Peek(_) => Peek(match r.below(8) { 0 => M, 1 => M - r.below(3), 2 => len + r.below(3), 3 => r.below(len + 1), _ => r.below(5) }),
                Skip(_) => Skip(match r.below(12) { 0 => M, 1 => M - r.below(9), 2 => M / 2 + 1, 3 => len, 4 => r.below(len + 1), _ => r.below(4) }),
                Reset if d == 0 => Next, Push if d >= 3 => Next, Pop | Commit if d == 0 => Next,
                o => o,
            };
            match o { Push => d += 1, Pop | Commit => d -= 1, _ => {} }
            ops.push(o);
        }
        if f(&ops, &s) { return }
    }
}
fn first_diff(got: &Trace, want: &Trace, keep: impl Fn(&Seen) -> bool) -> Option<String> {
    let a: Vec<_> = got.iter().filter(|x| keep(&x.1)).collect(); let b: Vec<_> = want.iter().filter(|x| keep(&x.1)).collect();
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) { (Some(x), Some(y)) if x == y => {} (x, y) => return Some(format!("operation, observation {:?}, expected {:?}", x, y)) }
    }
    None
}
fn show(ops: &[Op], s: &[u32]) -> String { format!("source of {} items {:?}, operations {:?}", s.len(), &s[..s.len().min(6)], ops) }

/// next, peek_ahead, fast_forward on a buffer and on a cursor of it: items, order, laziness
pub fn c02(tho: bool, seed: u64) {
    label("Buf");
    let go = |ops: &[Op], s: &[u32]| {
        case(|| show(ops, s), !s.is_empty());
        match exec(s, ops, false) {
            Err(p) => fail(format!("panicked: {}", p)),
            Ok(t) => if let Some(d) = first_diff(&t, &model(s, ops, false), |x| if let Seen::Pos(_) = x { false } else { true }) { fail(d) }
        }
        stop_early()
    };
    scripts(&[Next, Peek(0), Peek(1), Peek(3), Peek(M), Skip(0), Skip(1), Skip(2), Skip(4), Skip(M)], if tho { 5 } else { 4 }, seed, if tho { 200_000 } else { 20_000 }, 30, go);
    if stop_early() { return }
    label("Cursor");
    // the same through a cursor made after some of the buffer was read or looked at
    scripts(&[Next, Peek(0), Peek(2), Skip(1), Skip(3)], if tho { 5 } else { 4 }, seed + 1, if tho { 100_000 } else { 10_000 }, 20, |ops, s| {
        for pre in &[&[][..], &[Next], &[Peek(1)], &[Peek(2), Next], &[Skip(1)]] {
            let mut o: Vec<Op> = pre.to_vec(); o.push(Push); o.extend_from_slice(ops);
            if go(&o, s) { return true }
        }
        false
    });
    long_sources(tho);
}
/// long look-aheads and skips, near powers of two
fn long_sources(tho: bool) {
    label("Buf (long)");
    for &n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65536, 70001].iter() {
        if n > 5000 && !tho && n != 65536 { continue }
        let s: Vec<u32> = (0..n as u32 + 3).collect();
        for a in &[0usize, 1, n / 2, n - 1, n, n + 1] { for b in &[0usize, 1, n / 2, n, n + 2] {
            let ops = [Peek(*a), Skip(*b), Next, Peek(1), Peek(*a), Skip(1), Next, Skip(*a), Next];
            case(|| show(&ops, &s), true);
            // compared without draining the whole source at every level
            match exec(&s, &ops, false) { Err(p) => fail(format!("panicked: {}", p)), Ok(t) => if let Some(d) = first_diff(&t, &model(&s, &ops, false), |_| true) { fail(d) } }
        } }
    }
}
/// the same operations with and without a child cursor: the rest of the trace must not change
pub fn c01(tho: bool, seed: u64) {
    label("Cursor");
    scripts(&[Next, Peek(0), Peek(2), Skip(1), Skip(3), Skip(M), Reset, Push, Pop], if tho { 6 } else { 5 }, seed, if tho { 300_000 } else { 30_000 }, 30, |ops, s| {
        if !ops.contains(&Push) { return false }
        let mut start = 0;
        while let Some(k) = ops[start..].iter().position(|o| *o == Push) {
            let k = start + k; start = k + 1;
            let mut d = 0; let mut end = None;
            for (j, o) in ops.iter().enumerate().skip(k) { match o { Push => d += 1, Pop | Commit => { d -= 1; if d == 0 { end = Some(j); break } } _ => {} } }
            let mut full = ops.to_vec();
            let end = end.unwrap_or_else(|| { let mut dd = d; while dd > 0 { full.push(Pop); dd -= 1 } full.len() - 1 });
            let mut without = full[..k].to_vec(); without.extend_from_slice(&full[end + 1..]);
            case(|| format!("{}; the cursor of operations {}..={} left out", show(&full, s), k, end), !s.is_empty());
            if let (Ok(a), Ok(b)) = (exec(s, &full, false), exec(s, &without, false)) {
                let cut = end + 1 - k;
                let a: Trace = a.into_iter().filter(|x| x.0 < k || x.0 > end).map(|x| (if x.0 > end { x.0 - cut } else { x.0 }, x.1)).collect();
                if let Some(d) = first_diff(&a, &b, |x| if let Seen::Item(_) = x { true } else { false }) { fail(format!("{} (without the cursor)", d)) }
            }
            // a new cursor yields what its parent would yield
            let mut at_child = full[..k].to_vec(); let parent = exec(s, &at_child, false); at_child.push(Push);
            case(|| format!("{}: a new cursor yields what its parent would", show(&at_child, s)), !s.is_empty());
            if let (Ok(a), Ok(b)) = (exec(s, &at_child, true), parent) {
                let tail = |t: &Trace| { let m = t.iter().rev().filter(|x| if let Seen::Item(_) = x.1 { true } else { false }).count(); let _ = m; t.clone() };
                let first: Vec<_> = tail(&a).into_iter().filter(|x| x.0 == k + 1).map(|x| x.1).filter(|x| if let Seen::Item(_) = x { true } else { false }).take(s.len() + 1).collect();
                let want: Vec<_> = b.into_iter().filter(|x| x.0 == k).map(|x| x.1).filter(|x| if let Seen::Item(_) = x { true } else { false }).take(s.len() + 1).collect();
                if first != want { fail(format!("the cursor yields {:?}, its parent {:?}", first, want)) }
            }
        }
        stop_early()
    });
}
/// positions against the model, commit against reading on, reset against a new cursor, saturation
pub fn c03(tho: bool, seed: u64) {
    label("Cursor");
    scripts(&[Next, Peek(1), Skip(0), Skip(2), Skip(M - 1), Skip(M), Reset, Push, Pop, Commit], if tho { 5 } else { 4 }, seed, if tho { 300_000 } else { 30_000 }, 30, |ops, s| {
        let mut o = vec![Push]; o.extend_from_slice(ops);
        let mut d = 0; for x in &o { match x { Push => d += 1, Pop | Commit => d -= 1, _ => {} } if d < 0 { return false } }
        case(|| show(&o, s), !s.is_empty());
        match exec(s, &o, false) {
            Err(p) => fail(format!("panicked: {}", p)),
            Ok(t) => if let Some(x) = first_diff(&t, &model(s, &o, false), |x| if let Seen::Pulled(_) = x { false } else { true }) { fail(x) }
        }
        // committing the innermost open cursor: its parent goes on where it stood
        if d > 0 {
            let mut p = o.clone(); p.push(Commit);
            case(|| format!("{}: the parent goes on as the cursor would", show(&p, s)), !s.is_empty());
            if let (Ok(a), Ok(b)) = (exec(s, &o, false), exec(s, &p, false)) {
                let items = |t: Trace, k: usize| t.into_iter().filter(|x| x.0 == k).map(|x| x.1).filter(|x| if let Seen::Item(_) = x { true } else { false }).take(s.len() + 1).collect::<Vec<_>>();
                let (x, y) = (items(a, o.len()), items(b, p.len()));
                if x != y { fail(format!("the parent yields {:?}, the cursor would have yielded {:?}", y, x)) }
            }
        }
        stop_early()
    });
}
