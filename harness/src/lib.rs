//! Bounded counterexample search / replay against the real code.
//! Own recording destination and own scripted source; oracles are written from the property
//! statements, nothing here reads the implementation's internals.
#![allow(dead_code)]
use rx_core_common::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

pub mod reent;
pub mod cat;
pub mod subj;
pub mod ho;
pub mod two;
pub mod prelude {
    pub use crate::*;
    pub use rx_core_common::*;
    pub use std::sync::{Arc, Mutex};
    pub use std::time::Duration;
}

pub fn lk<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ------------------------------------------------------------------------------------ events
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev<T, E> {
    N(T),
    E(E),
    C,
    U,
}
impl<T, E> Ev<T, E> {
    pub fn term(&self) -> bool {
        !matches!(self, Ev::N(_))
    }
}
pub type IEv = Ev<i64, i64>;

// ------------------------------------------------------------------------------------ recorder
type Hook<T, E> = Box<dyn FnMut(usize, &Ev<T, E>) + Send + Sync>;
pub struct RecState<T, E> {
    pub log: Vec<Ev<T, E>>,
    pub closed: bool,
    /// close by itself after this many next signals
    pub close_after: Option<usize>,
    pub teardowns: Vec<Teardown>,
    pub torn: usize,
    pub after_close: Vec<Ev<T, E>>,
}
pub struct RecH<T, E> {
    pub st: Arc<Mutex<RecState<T, E>>>,
    pub hook: Arc<Mutex<Option<Hook<T, E>>>>,
}
impl<T, E> Clone for RecH<T, E> {
    fn clone(&self) -> Self {
        RecH { st: self.st.clone(), hook: self.hook.clone() }
    }
}
impl<T: Clone, E: Clone> RecH<T, E> {
    pub fn new() -> Self {
        RecH {
            st: Arc::new(Mutex::new(RecState { log: vec![], closed: false, close_after: None, teardowns: vec![], torn: 0, after_close: vec![] })),
            hook: Arc::new(Mutex::new(None)),
        }
    }
    pub fn closing_after(n: usize) -> Self {
        let r = Self::new();
        lk(&r.st).close_after = Some(n);
        r
    }
    pub fn rec(&self) -> Rec<T, E> {
        Rec { h: self.clone() }
    }
    pub fn log(&self) -> Vec<Ev<T, E>> {
        lk(&self.st).log.clone()
    }
    /// without the unsubscribe marker
    pub fn sig(&self) -> Vec<Ev<T, E>> {
        lk(&self.st).log.iter().filter(|e| !matches!(e, Ev::U)).cloned().collect()
    }
    pub fn vals(&self) -> Vec<T> {
        lk(&self.st).log.iter().filter_map(|e| if let Ev::N(x) = e { Some(x.clone()) } else { None }).collect()
    }
    pub fn closed(&self) -> bool {
        lk(&self.st).closed
    }
    pub fn after_close(&self) -> Vec<Ev<T, E>> {
        lk(&self.st).after_close.clone()
    }
    pub fn set_hook(&self, f: impl FnMut(usize, &Ev<T, E>) + Send + Sync + 'static) {
        *lk(&self.hook) = Some(Box::new(f));
    }
    pub fn clear(&self) {
        lk(&self.st).log.clear();
    }
}
/// strict destination: a full Subscriber of our own
pub struct Rec<T, E> {
    h: RecH<T, E>,
}
impl<T, E> Rec<T, E> {
    fn close(&self) {
        loop {
            let td = {
                let mut s = lk(&self.h.st);
                s.closed = true;
                s.teardowns.pop()
            };
            match td {
                Some(t) => {
                    t.execute();
                    lk(&self.h.st).torn += 1;
                }
                None => break,
            }
        }
    }
    fn put(&self, e: Ev<T, E>)
    where
        T: Clone,
        E: Clone,
    {
        let n;
        let mut close = e.term();
        {
            let mut s = lk(&self.h.st);
            if s.closed {
                s.after_close.push(e);
                return;
            }
            s.log.push(e.clone());
            n = s.log.len();
            if let Some(k) = s.close_after {
                if n >= k {
                    close = true;
                }
            }
        }
        let hook = lk(&self.h.hook).take();
        if let Some(mut f) = hook {
            f(n - 1, &e);
            let mut g = lk(&self.h.hook);
            if g.is_none() {
                *g = Some(f);
            }
        }
        if close {
            self.close()
        }
    }
}
impl<T: Signal, E: Signal> ObserverInput for Rec<T, E> {
    type In = T;
    type InError = E;
}
impl<T: Signal + Clone, E: Signal + Clone> RxObserver for Rec<T, E> {
    fn next(&mut self, n: T) {
        self.put(Ev::N(n))
    }
    fn error(&mut self, e: E) {
        self.put(Ev::E(e))
    }
    fn complete(&mut self) {
        self.put(Ev::C)
    }
}
impl<T: Signal, E: Signal> SubscriptionLike for Rec<T, E> {
    fn is_closed(&self) -> bool {
        lk(&self.h.st).closed
    }
    fn unsubscribe(&mut self) {
        let fresh = {
            let mut s = lk(&self.h.st);
            let f = !s.closed;
            if f {
                s.log.push(Ev::U);
            }
            f
        };
        if fresh {
            self.close()
        }
    }
}
impl<T: Signal, E: Signal> TeardownCollection for Rec<T, E> {
    fn add_teardown(&mut self, t: Teardown) {
        let closed = lk(&self.h.st).closed;
        if closed {
            t.execute();
            lk(&self.h.st).torn += 1;
        } else {
            lk(&self.h.st).teardowns.push(t);
        }
    }
}
impl<T, E> ObserverUpgradesToSelf for Rec<T, E> {}
impl<T: Signal, E: Signal> WithPrimaryCategory for Rec<T, E> {
    type PrimaryCategory = PrimaryCategorySubscriber;
}

// ------------------------------------------------------------------------------------ source
type Dyn<T, E> = Box<dyn Subscriber<In = T, InError = E> + Send + Sync>;
enum Slot<T: Signal, E: Signal> {
    Here(Dyn<T, E>),
    Busy { unsub: bool, pending: Vec<Teardown> },
    Gone,
}
pub struct Conn<T: Signal, E: Signal> {
    slot: Mutex<Slot<T, E>>,
    pub unsubscribed: AtomicBool,
    last_closed: AtomicBool,
    ended: AtomicBool,
}
impl<T: Signal, E: Signal> Conn<T, E> {
    fn with<R>(&self, f: impl FnOnce(&mut Dyn<T, E>) -> R) -> Option<R> {
        let d = {
            let mut g = lk(&self.slot);
            match std::mem::replace(&mut *g, Slot::Gone) {
                Slot::Here(d) => {
                    *g = Slot::Busy { unsub: false, pending: vec![] };
                    d
                }
                o => {
                    *g = o;
                    return None;
                }
            }
        };
        let mut d = d;
        let r = f(&mut d);
        loop {
            let (unsub, pending) = {
                let mut g = lk(&self.slot);
                match &mut *g {
                    Slot::Busy { unsub, pending } => (std::mem::take(unsub), std::mem::take(pending)),
                    _ => (false, vec![]),
                }
            };
            if !unsub && pending.is_empty() {
                break;
            }
            for p in pending {
                d.add_teardown(p);
            }
            if unsub {
                d.unsubscribe();
            }
        }
        self.last_closed.store(d.is_closed(), Ordering::SeqCst);
        *lk(&self.slot) = Slot::Here(d);
        Some(r)
    }
    /// what a well-behaved source does: nothing is sent to a subscriber that reports to be closed
    pub fn offer(&self, e: Ev<T, E>) {
        if self.ended.load(Ordering::SeqCst) || self.unsubscribed.load(Ordering::SeqCst) {
            return;
        }
        if e.term() && !matches!(*lk(&self.slot), Slot::Busy { .. }) {
            self.ended.store(true, Ordering::SeqCst);
        }
        self.with(|d| if !d.is_closed() {
            match e {
                Ev::N(x) => d.next(x),
                Ev::E(x) => d.error(x),
                Ev::C => d.complete(),
                Ev::U => d.unsubscribe(),
            }
        });
    }
    pub fn send(&self, e: Ev<T, E>) {
        self.with(|d| match e {
            Ev::N(x) => d.next(x),
            Ev::E(x) => d.error(x),
            Ev::C => d.complete(),
            Ev::U => d.unsubscribe(),
        });
    }
    pub fn closed(&self) -> bool {
        let g = lk(&self.slot);
        match &*g {
            Slot::Here(d) => d.is_closed(),
            Slot::Busy { .. } => self.last_closed.load(Ordering::SeqCst),
            Slot::Gone => true,
        }
    }
}
pub struct Script<T: Signal, E: Signal> {
    /// every subscription made, in order
    pub conns: Arc<Mutex<Vec<Arc<Conn<T, E>>>>>,
    /// signals sent during the n-th subscribe
    pub prefix: Arc<Mutex<Vec<Vec<Ev<T, E>>>>>,
    /// signals every later subscribe sends
    pub default_prefix: Arc<Mutex<Vec<Ev<T, E>>>>,
}
impl<T: Signal, E: Signal> Clone for Script<T, E> {
    fn clone(&self) -> Self {
        Script { conns: self.conns.clone(), prefix: self.prefix.clone(), default_prefix: self.default_prefix.clone() }
    }
}
impl<T: Signal + Clone, E: Signal + Clone> Script<T, E> {
    pub fn new() -> Self {
        Script { conns: Default::default(), prefix: Default::default(), default_prefix: Default::default() }
    }
    pub fn with(prefix: Vec<Ev<T, E>>) -> Self {
        let s = Self::new();
        *lk(&s.default_prefix) = prefix;
        s
    }
    /// n-th subscribe sends p[n]
    pub fn with_each(p: Vec<Vec<Ev<T, E>>>) -> Self {
        let s = Self::new();
        *lk(&s.prefix) = p;
        s
    }
    pub fn count(&self) -> usize {
        lk(&self.conns).len()
    }
    pub fn conn(&self, i: usize) -> Arc<Conn<T, E>> {
        lk(&self.conns)[i].clone()
    }
    /// to the latest subscription
    pub fn send(&self, e: Ev<T, E>) {
        let c = lk(&self.conns).last().cloned();
        if let Some(c) = c {
            c.send(e)
        }
    }
    pub fn offer_all(&self, e: Ev<T, E>) {
        let c = lk(&self.conns).clone();
        for c in c {
            c.offer(e.clone())
        }
    }
    pub fn send_all(&self, e: Ev<T, E>) {
        let c = lk(&self.conns).clone();
        for c in c {
            c.send(e.clone())
        }
    }
    pub fn closed(&self, i: usize) -> bool {
        let c = self.conn(i);
        c.closed()
    }
    pub fn live(&self) -> usize {
        let c = lk(&self.conns).clone();
        c.iter().filter(|c| !c.closed() && !c.unsubscribed.load(Ordering::SeqCst)).count()
    }
    pub fn clear(&self) {
        let v = std::mem::take(&mut *lk(&self.conns));
        drop(v);
    }
}
impl<T: Signal, E: Signal> ObservableOutput for Script<T, E> {
    type Out = T;
    type OutError = E;
}
impl<T: Signal, E: Signal> WithPrimaryCategory for Script<T, E> {
    type PrimaryCategory = PrimaryCategoryObservable;
}
pub struct ScriptSub<T: Signal, E: Signal> {
    c: Arc<Conn<T, E>>,
}
impl<T: Signal, E: Signal> SubscriptionLike for ScriptSub<T, E> {
    fn is_closed(&self) -> bool {
        self.c.closed()
    }
    fn unsubscribe(&mut self) {
        self.c.unsubscribed.store(true, Ordering::SeqCst);
        {
            let mut g = lk(&self.c.slot);
            if let Slot::Busy { unsub, .. } = &mut *g {
                *unsub = true;
                return;
            }
        }
        self.c.with(|d| d.unsubscribe());
    }
}
impl<T: Signal, E: Signal> TeardownCollection for ScriptSub<T, E> {
    fn add_teardown(&mut self, t: Teardown) {
        {
            let mut g = lk(&self.c.slot);
            if let Slot::Busy { pending, .. } = &mut *g {
                pending.push(t);
                return;
            }
        }
        self.c.with(|d| d.add_teardown(t));
    }
}
impl<T: Signal, E: Signal> Drop for ScriptSub<T, E> {
    fn drop(&mut self) {
        self.unsubscribe();
    }
}
impl<T: Signal + Clone, E: Signal + Clone> Observable for Script<T, E> {
    type Subscription<D>
        = ScriptSub<T, E>
    where
        D: 'static + Subscriber<In = T, InError = E>;
    fn subscribe<D>(&mut self, destination: D) -> Self::Subscription<D::Upgraded>
    where
        D: 'static + UpgradeableObserver<In = T, InError = E> + Send + Sync,
    {
        let up = destination.upgrade();
        let c = Arc::new(Conn { slot: Mutex::new(Slot::Here(Box::new(up))), unsubscribed: AtomicBool::new(false), last_closed: AtomicBool::new(false), ended: AtomicBool::new(false) });
        let n = {
            let mut g = lk(&self.conns);
            g.push(c.clone());
            g.len() - 1
        };
        let p = {
            let g = lk(&self.prefix);
            if n < g.len() { g[n].clone() } else { lk(&self.default_prefix).clone() }
        };
        for e in p {
            if c.closed() {
                break;
            }
            if e.term() {
                c.ended.store(true, Ordering::SeqCst);
            }
            c.send(e);
        }
        ScriptSub { c }
    }
}

// ------------------------------------------------------------------------------------ search
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub evals: usize,
    pub per: HashMap<String, usize>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub fails: Vec<(String, String, String)>,
    cur: Arc<Mutex<String>>,
    beat: Arc<AtomicUsize>,
    only: Option<(String, String)>,
    known: Vec<(String, String)>,
    pub known_hit: Vec<String>,
    start: std::time::Instant,
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Ctx {
    /// number of random rounds
    pub fn rounds(&self, quick: usize) -> usize {
        if self.thorough { quick * 12 } else { quick }
    }
    pub fn size(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng(self.seed ^ hash(salt))
    }
    /// one case: `what` names the clause under test, `input` describes the concrete input.
    pub fn case(&mut self, what: &str, input: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some((w, i)) = &self.only {
            if w != what || i != input {
                return;
            }
        }
        if self.fails.len() >= if std::env::var_os("VH_ALL").is_some() { 999 } else { 3 } || self.fails.iter().any(|x| x.0 == what) {
            return;
        }
        *lk(&self.cur) = format!("{what}\u{1}{input}");
        self.beat.fetch_add(1, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        self.evals += 1;
        *self.per.entry(what.to_string()).or_default() += 1;
        if self.distinct.insert(hash(&format!("{what}|{input}"))) && (self.samples.len() < 3 || (self.samples.len() < 12 && self.distinct.len() % 97 == 0)) {
            self.samples.push(format!("{what}: {input}"));
        }
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                Err(format!("the code under test panicked: {m}"))
            }
        };
        if let Err(m) = r {
            if self.known.iter().any(|(w, i)| w == what && (i == input || i == "*")) {
                self.known_hit.push(format!("{what}: {input}"));
                return;
            }
            self.fails.push((what.to_string(), input.to_string(), m));
        }
    }
}
fn write_out(path: &str, c: &Ctx, hang: Option<(String, String)>) {
    let mut fails = c.fails.clone();
    if let Some((w, i)) = hang {
        fails.push((w, i, "no progress: the code under test hangs (deadlock or endless loop)".into()));
    }
    let f: Vec<String> = fails
        .iter()
        .map(|(w, i, m)| format!("{{\"what\":\"{}\",\"input\":\"{}\",\"observed\":\"{}\"}}", esc(w), esc(i), esc(m)))
        .collect();
    let per: Vec<String> = {
        let mut v: Vec<_> = c.per.iter().collect();
        v.sort();
        v.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect()
    };
    let s: Vec<String> = c.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let kh: Vec<String> = c.known_hit.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let out = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"seconds\":{:.1},\"per\":{{{}}},\"samples\":[{}],\"known\":[{}],\"fails\":[{}]}}\n",
        c.evals,
        c.distinct.len(),
        c.start.elapsed().as_secs_f64(),
        per.join(","),
        s.join(","),
        kh.join(","),
        f.join(",")
    );
    std::fs::write(path, out).unwrap();
}

// usage: BIN <tier> <seed> <out.json> [known.txt] | BIN replay <what> <input>
unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}
type AbortInfo = (Arc<Mutex<String>>, Arc<AtomicUsize>, String, String, bool);
static ABORT: std::sync::OnceLock<AbortInfo> = std::sync::OnceLock::new();
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
// the code under test took the whole process down (a panic while unwinding, a stack overflow)
extern "C" fn on_abort(_: i32) {
    if let Some((cur, beat, out, _, replay)) = ABORT.get() {
        let c = cur.try_lock().map(|c| c.clone()).unwrap_or_default();
        let (w, i) = c.split_once('\u{1}').unwrap_or(("?", "?"));
        let m = format!("the process aborted: {}", LAST_PANIC.try_lock().map(|c| c.clone()).unwrap_or_default());
        if *replay {
            println!("FAIL {w} | {i} | {m}");
        } else {
            let _ = std::fs::write(
                out,
                format!(
                    "{{\"evaluations\":{},\"distinct\":0,\"seconds\":0,\"per\":{{}},\"samples\":[],\"known\":[],\"fails\":[{{\"what\":\"{}\",\"input\":\"{}\",\"observed\":\"{}\"}}]}}\n",
                    beat.load(Ordering::SeqCst),
                    esc(w),
                    esc(i),
                    esc(&m)
                ),
            );
        }
    }
    unsafe { _exit(1) }
}

pub fn main_with(search: impl FnOnce(&mut Ctx) + Send + 'static) {
    let a: Vec<String> = std::env::args().collect();
    let replay = a[1] == "replay";
    let cur: Arc<Mutex<String>> = Default::default();
    let beat: Arc<AtomicUsize> = Default::default();
    let mut known = vec![];
    if !replay && a.len() > 4 {
        for l in std::fs::read_to_string(&a[4]).unwrap_or_default().lines() {
            if let Some((w, i)) = l.split_once('\t') {
                known.push((w.to_string(), i.to_string()));
            }
        }
    }
    let thorough = if replay { a.get(4).map(|s| s == "thorough").unwrap_or(false) } else { a[1] == "thorough" };
    let seed: u64 = if replay { a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1) } else { a[2].parse().unwrap_or(1) };
    let out = if replay { String::new() } else { a[3].clone() };
    let ctx = Ctx {
        thorough,
        seed,
        evals: 0,
        per: Default::default(),
        distinct: Default::default(),
        samples: vec![],
        fails: vec![],
        cur: cur.clone(),
        beat: beat.clone(),
        only: if replay { Some((a[2].clone(), a[3].clone())) } else { None },
        known,
        known_hit: vec![],
        start: std::time::Instant::now(),
    };
    let shared: Arc<Mutex<Option<Ctx>>> = Default::default();
    let sh2 = shared.clone();
    let _ = ABORT.set((cur.clone(), beat.clone(), out.clone(), String::new(), replay));
    unsafe {
        signal(6, on_abort as extern "C" fn(i32) as usize);
    }
    std::panic::set_hook(Box::new(|p| {
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("{p}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut g) = LAST_PANIC.try_lock() {
            *g = p.to_string();
        }
    }));
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = ctx;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| search(&mut c)));
            if r.is_err() {
                c.fails.push(("harness".into(), lk(&c.cur).clone(), "the search itself panicked".into()));
            }
            *lk(&sh2) = Some(c);
        })
        .unwrap();
    let mut last = (0usize, std::time::Instant::now());
    loop {
        std::thread::sleep(std::time::Duration::from_millis(10));
        if th.is_finished() {
            break;
        }
        let b = beat.load(Ordering::SeqCst);
        if b != last.0 {
            last = (b, std::time::Instant::now());
        } else if last.1.elapsed().as_secs() >= 20 {
            let c = lk(&cur).clone();
            let (w, i) = c.split_once('\u{1}').unwrap_or(("?", "?"));
            let hang = (w.to_string(), i.to_string());
            if replay {
                println!("FAIL {} | {} | hangs", hang.0, hang.1);
            } else {
                let c = Ctx {
                    thorough,
                    seed,
                    evals: b,
                    per: Default::default(),
                    distinct: Default::default(),
                    samples: vec![],
                    fails: vec![],
                    cur: cur.clone(),
                    beat: beat.clone(),
                    only: None,
                    known: vec![],
                    known_hit: vec![],
                    start: std::time::Instant::now(),
                };
                write_out(&out, &c, Some(hang));
            }
            std::process::exit(1);
        }
    }
    let g = lk(&shared);
    let Some(c) = g.as_ref() else {
        eprintln!("search thread died");
        std::process::exit(2);
    };
    if replay {
        for (w, i, m) in &c.fails {
            println!("FAIL {w} | {i} | {m}");
        }
        if c.fails.is_empty() {
            println!("PASS ({} evaluated)", c.evals);
        }
    } else {
        write_out(&out, c, None);
    }
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}

pub fn eq<A: PartialEq + Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
pub fn ensure(c: bool, what: impl Into<String>) -> Result<(), String> {
    if c { Ok(()) } else { Err(what.into()) }
}

/// all value sequences over `alpha` up to length n
pub fn seqs<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for s in &cur {
            for a in alpha {
                let mut t = s.clone();
                t.push(a.clone());
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
/// how a scripted input ends
pub fn ends<T: Clone, E: Clone>(e: E) -> Vec<Option<Ev<T, E>>> {
    vec![None, Some(Ev::C), Some(Ev::E(e)), Some(Ev::U)]
}

/// Stepwise check of a single-source, scheduler-free pipeline against a reference: after every
/// prefix of the input the destination must have seen exactly what the reference says.
/// `model(events so far)` = expected trace so far, including a terminal signal or unsubscription.
pub fn check_unary<I, E, O, F, Obs>(
    c: &mut Ctx,
    what: &str,
    param: &str,
    inputs: &[Vec<Ev<I, E>>],
    build: impl Fn(Script<I, E>) -> Obs,
    model: impl Fn(&[Ev<I, E>]) -> Vec<Ev<O, F>>,
) where
    I: Signal + Clone + Debug + PartialEq,
    E: Signal + Clone + Debug + PartialEq,
    O: Signal + Clone + Debug + PartialEq,
    F: Signal + Clone + Debug + PartialEq,
    Obs: Observable<Out = O, OutError = F>,
{
    for inp in inputs {
        for sync in [false, true] {
            for ca in [None, Some(1usize), Some(2)] {
                if sync && ca.is_some() && inp.len() > 2 {
                    continue;
                }
                let d = format!("{param} input={inp:?}{}{}", if sync { " sent-during-subscribe" } else { "" }, match ca { Some(k) => format!(" destination-closes-after={k}"), None => String::new() });
                c.case(what, &d, || {
                    let rec = match ca {
                        Some(k) => RecH::closing_after(k),
                        None => RecH::new(),
                    };
                    let cut = |v: Vec<Ev<O, F>>| -> Vec<Ev<O, F>> {
                        let mut o = vec![];
                        for e in v {
                            let t = e.term();
                            o.push(e);
                            if t || ca == Some(o.len()) {
                                break;
                            }
                        }
                        o
                    };
                    let src = Script::new();
                    let pre: Vec<Ev<I, E>> = if sync { inp.iter().take_while(|e| !matches!(e, Ev::U)).cloned().collect() } else { vec![] };
                    *lk(&src.default_prefix) = pre.clone();
                    let mut obs = build(src.clone());
                    let mut sub = obs.subscribe(rec.rec());
                    let mut fed = pre.clone();
                    let closed_by = |want: &Vec<Ev<O, F>>| want.last().is_some_and(|e| e.term()) || ca.is_some_and(|k| want.len() >= k);
                    let chk = |fed: &[Ev<I, E>], sub: &dyn Fn() -> bool| -> Result<(), String> {
                        let want = cut(model(fed));
                        eq(&format!("trace after {fed:?}"), rec.log(), want.clone())?;
                        if closed_by(&want) {
                            ensure(sub(), format!("subscription not closed after the output ended ({fed:?})"))?;
                        } else {
                            ensure(!sub(), format!("subscription closed early ({fed:?})"))?;
                        }
                        Ok(())
                    };
                    let closed_now = |s: &Obs::Subscription<Rec<O, F>>| s.is_closed();
                    chk(&fed, &|| closed_now(&sub))?;
                    for (i, e) in inp.iter().enumerate().skip(pre.len()) {
                        if let Ev::U = e {
                            sub.unsubscribe();
                        } else {
                            if closed_now(&sub) {
                                break;
                            }
                            src.send(e.clone());
                        }
                        fed.push(e.clone());
                        // long inputs: now and then, and around the end
                        if inp.len() <= 200 || i % (inp.len() / 20) == 0 || i + 3 > inp.len() {
                            chk(&fed, &|| closed_now(&sub))?;
                        }
                    }
                    chk(&fed, &|| closed_now(&sub))?;
                    let before = rec.log();
                    let ended = closed_by(&before);
                    drop(sub);
                    let mut want = before.clone();
                    if !ended {
                        want.push(Ev::U);
                    }
                    eq("trace after dropping the subscription", rec.log(), want)?;
                    Ok(())
                });
            }
        }
    }
}

/// inputs longer than any size one would think of as a limit
pub fn long_inputs<I: Clone, E: Clone>(f: impl Fn(usize) -> I, err: E) -> Vec<Vec<Ev<I, E>>> {
    [(70usize, Ev::C), (300, Ev::E(err)), (1100, Ev::C), (4200, Ev::C)]
        .into_iter()
        .map(|(n, e)| (0..n).map(|i| Ev::N(f(i))).chain([e]).collect())
        .collect()
}
/// usual inputs: all value sequences up to n over alpha, every ending
pub fn inputs<I: Clone, E: Clone>(alpha: &[I], n: usize, err: E) -> Vec<Vec<Ev<I, E>>> {
    let mut v = vec![];
    for s in seqs(alpha, n) {
        for e in ends(err.clone()) {
            let mut t: Vec<Ev<I, E>> = s.iter().cloned().map(Ev::N).collect();
            t.extend(e);
            v.push(t);
        }
    }
    v
}
/// longer random inputs
pub fn rand_inputs<E: Clone>(r: &mut Rng, k: usize, len: usize, lo: i64, hi: i64, err: E) -> Vec<Vec<Ev<i64, E>>> {
    (0..k)
        .map(|_| {
            let n = r.below(len + 1);
            let mut v: Vec<Ev<i64, E>> = (0..n).map(|_| Ev::N(r.range(lo, hi))).collect();
            match r.below(4) {
                0 => v.push(Ev::C),
                1 => v.push(Ev::E(err.clone())),
                2 => v.push(Ev::U),
                _ => {}
            }
            v
        })
        .collect()
}
pub fn nexts<I: Clone, E>(v: &[Ev<I, E>]) -> Vec<I> {
    v.iter().filter_map(|e| if let Ev::N(x) = e { Some(x.clone()) } else { None }).collect()
}
/// terminal of an input mapped straight through
pub fn end_of<I, E: Clone, O>(v: &[Ev<I, E>]) -> Option<Ev<O, E>> {
    v.iter().find_map(|e| match e {
        Ev::N(_) => None,
        Ev::E(x) => Some(Ev::E(x.clone())),
        Ev::C => Some(Ev::C),
        Ev::U => Some(Ev::U),
    })
}
