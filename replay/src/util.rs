//! Case bookkeeping: what is being run, what failed, and a watchdog for runs that never end.
use std::cell::Cell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static COUNT: AtomicU64 = AtomicU64::new(0);
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
static FAILS: AtomicU64 = AtomicU64::new(0);
static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// marks a failure whose case only a run with REPLAY_TRACE can name
pub const HANG: &str = "HANG";
pub struct State {
    pub label: String,
    pub fails: Vec<(String, String)>,
    pub seen: BTreeSet<String>,
    pub samples: Vec<String>,
    pub trace: Option<String>,
}
static mut ST: Option<&'static Mutex<State>> = None;
pub fn init() { TRACE.store(std::env::var("REPLAY_TRACE").is_ok(), Ordering::Relaxed); unsafe { ST = Some(Box::leak(Box::new(Mutex::new(State { label: String::new(), fails: vec![], seen: BTreeSet::new(), samples: vec![], trace: std::env::var("REPLAY_TRACE").ok() })))) } }

thread_local! { static QUIET: Cell<bool> = Cell::new(true); }

pub fn st() -> std::sync::MutexGuard<'static, State> {
    match unsafe { ST.unwrap() }.lock() { Ok(g) => g, Err(p) => p.into_inner() }
}
pub fn label(l: &str) { let mut s = st(); s.label = l.to_string(); DESC.with(|d| *d.borrow_mut() = None) }
thread_local! { static DESC: std::cell::RefCell<Option<Box<dyn Fn() -> String>>> = std::cell::RefCell::new(None); }
/// the case about to be run; `f` describes it, and is called only while the borrows it holds are live
/// (by `fail`, in the same iteration)
pub fn case<'a>(f: impl Fn() -> String + 'a, nontrivial: bool) {
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    if nontrivial { NONTRIVIAL.fetch_add(1, Ordering::Relaxed); }
    if TRACE.load(Ordering::Relaxed) || (nontrivial && (n % 997 == 5 || n < 3)) {
        let mut s = st();
        if let Some(t) = &s.trace { let _ = std::fs::write(t, format!("{}\n{}\n", s.label, f())); }
        if nontrivial && s.samples.len() < 12 && (n % 997 == 5 || n < 3) { let x = format!("{}: {}", s.label, f()); s.samples.push(x); }
    }
    let b: Box<dyn Fn() -> String + 'a> = Box::new(f);
    let b: Box<dyn Fn() -> String> = unsafe { std::mem::transmute(b) };
    DESC.with(|d| *d.borrow_mut() = Some(b));
}
/// record a failure of the current case
pub fn fail(what: String) {
    let c = DESC.with(|d| d.borrow().as_ref().map_or(String::new(), |f| f()));
    FAILS.fetch_add(1, Ordering::Relaxed);
    let mut s = st();
    let key = s.label.clone();
    if s.seen.insert(key.clone()) || s.fails.len() < 3 {
        if s.fails.len() < 40 { s.fails.push((key, format!("{} -- {}", c, what))); }
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
pub fn report_and_exit() -> ! {
    let s = st();
    println!("CASES {}", COUNT.load(Ordering::Relaxed));
    println!("NONTRIVIAL {}", NONTRIVIAL.load(Ordering::Relaxed));
    for x in &s.samples { println!("SAMPLE {}", x.replace('\n', "\\n")); }
    for (k, d) in &s.fails { println!("FAIL {} :: {}", k.replace('\n', "\\n"), d.replace('\n', "\\n")); }
    println!("DONE");
    std::process::exit(0)
}
pub fn watchdog(limit_s: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || {
        let mut last = 0; let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = COUNT.load(Ordering::Relaxed);
            if n == last { same += 1 } else { same = 0; last = n }
            if same >= limit_s { let l = st().label.clone(); st().fails.push((l, format!("{} no result after {} s", HANG, limit_s))); report_and_exit() }
        }
    });
}
pub fn stop_early() -> bool { FAILS.load(Ordering::Relaxed) >= 40 }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let x = self.0 ^ (self.0 >> 33); x.wrapping_mul(0xff51afd7ed558ccd) >> 16 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
/// all sequences over `alpha` up to length `max`
pub fn all<T: Copy>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut start = 0;
    for _ in 0..max {
        let end = out.len();
        for i in start..end { for a in alpha { let mut v = out[i].clone(); v.push(*a); out.push(v); } }
        start = end;
    }
    out
}
/// a source whose end is final, counting how often it is asked
#[derive(Clone)]
pub struct Src<T> { pub items: std::rc::Rc<Vec<T>>, pub at: std::rc::Rc<Cell<usize>>, pub calls: std::rc::Rc<Cell<u64>>, pub hint: bool }
impl<T: Copy> Src<T> {
    pub fn new(items: &[T]) -> Self { Src { items: std::rc::Rc::new(items.to_vec()), at: Default::default(), calls: Default::default(), hint: false } }
    /// a source that tells how many items it has left
    pub fn hinted(items: &[T], hint: bool) -> Self { Src { hint, ..Src::new(items) } }
    pub fn pulled(&self) -> usize { self.at.get() }
}
impl<T: Copy> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let c = self.calls.get() + 1;
        self.calls.set(c);
        if c > 4_000_000 { panic!("runaway: the source was asked {} times", c) }
        let i = self.at.get();
        if i < self.items.len() { self.at.set(i + 1); Some(self.items[i]) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.hint { let n = self.items.len() - self.at.get(); (n, Some(n)) } else { (0, None) } }
}
