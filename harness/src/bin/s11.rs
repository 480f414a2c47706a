//! The ticking scheduler: every sequence of schedule, cancel, invoke and tick, also from inside
//! work, against a model of when every item has to run.
use rx_core::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;
use vh::cat::{Exec, Hnd};
use rx_core_scheduler_ticking::Tick;
use vh::prelude::*;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Delay(u64),
    Now,
    /// interval, starts immediately, limit per tick, done at run number
    Rep(u64, bool, usize, usize),
    Cont(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum O {
    /// schedule (kind, cancellation id, script)
    S(K, usize, usize),
    X(usize),
    /// add invoked work (id, done at run number, script)
    A(usize, usize, usize),
    I(usize),
    XI(usize),
    T(u64),
}
/// u64::MAX stands for the longest duration
fn dur(n: u64) -> Duration {
    if n == u64::MAX { Duration::MAX } else { Duration::from_nanos(n) }
}
type Scripts = Vec<Vec<Vec<O>>>;
#[derive(Clone, Debug)]
struct Prog {
    top: Vec<O>,
    scripts: Scripts,
}
/// (number of the tick, item, time the work was told)
type Log = Vec<(usize, usize, u64)>;

// ---------------------------------------------------------------- the real scheduler
struct W {
    scripts: Scripts,
    h: Hnd,
    cids: Vec<WorkCancellationId>,
    iids: Vec<WorkInvokeId>,
    log: Mutex<Log>,
    tick: AtomicUsize,
    items: AtomicUsize,
    budget: AtomicUsize,
}
impl W {
    fn ran(self: &Arc<Self>, item: usize, script: usize, runs: &mut usize, now: Duration) {
        lk(&self.log).push((self.tick.load(SeqCst), item, now.as_nanos() as u64));
        let acts = self.scripts.get(script).and_then(|s| s.get(*runs)).cloned().unwrap_or_default();
        *runs += 1;
        for a in acts {
            self.act(&a);
        }
    }
    fn act(self: &Arc<Self>, o: &O) {
        if self.budget.fetch_update(SeqCst, SeqCst, |b| b.checked_sub(1)).is_err() {
            return;
        }
        let w = self.clone();
        let mut g = self.h.lock();
        match o {
            O::S(k, c, script) => {
                let (script, id, cid) = (*script, self.items.fetch_add(1, SeqCst), self.cids[*c]);
                let mut runs = 0;
                match k {
                    K::Delay(d) => g.schedule_delayed_work(move |t, _| w.ran(id, script, &mut runs, t.now()), dur(*d), cid),
                    K::Now => g.schedule_immediate_work(move |t, _| w.ran(id, script, &mut runs, t.now()), cid),
                    K::Rep(d, imm, max, done) => {
                        let done = *done;
                        g.schedule_repeated_work(
                            move |t, _| {
                                w.ran(id, script, &mut runs, t.now());
                                if runs >= done { WorkResult::Done } else { WorkResult::Pending }
                            },
                            dur(*d),
                            *imm,
                            *max,
                            cid,
                        )
                    }
                    K::Cont(done) => {
                        let done = *done;
                        g.schedule_continuous_work(
                            move |t, _| {
                                w.ran(id, script, &mut runs, t.now());
                                if runs >= done { WorkResult::Done } else { WorkResult::Pending }
                            },
                            cid,
                        )
                    }
                }
            }
            O::X(c) => g.cancel(self.cids[*c]),
            O::A(i, done, script) => {
                let (script, done, id) = (*script, *done, self.items.fetch_add(1, SeqCst));
                let mut runs = 0;
                let work = <<vh::cat::Sch as Scheduler>::InvokedWorkFactory as InvokedTaskFactory<_, _>>::new(move |t: Tick, _: &mut vh::cat::TCtx| {
                    w.ran(id, script, &mut runs, t.now());
                    if runs >= done { WorkResult::Done } else { WorkResult::Pending }
                });
                g.schedule_invoked_work(work, self.iids[*i])
            }
            O::I(i) => g.invoke(self.iids[*i]),
            O::XI(i) => g.cancel_invoked(self.iids[*i]),
            O::T(_) => {}
        }
    }
}
fn real(p: &Prog, budget: usize) -> (Log, Vec<bool>) {
    let mut e = Exec::default();
    let h = e.handle();
    let (cids, iids) = {
        let mut g = h.lock();
        ((0..4).map(|_| g.generate_cancellation_id()).collect(), (0..4).map(|_| g.generate_invoke_id()).collect())
    };
    let w = Arc::new(W { scripts: p.scripts.clone(), h, cids, iids, log: Default::default(), tick: Default::default(), items: Default::default(), budget: AtomicUsize::new(budget) });
    let mut empty = vec![];
    for o in &p.top {
        match o {
            O::T(d) => {
                w.tick.fetch_add(1, SeqCst);
                e.tick_d(Duration::from_nanos(*d));
                empty.push(e.is_empty());
            }
            o => w.act(o),
        }
    }
    let l = lk(&w.log).clone();
    (l, empty)
}
// ---------------------------------------------------------------- the model
#[derive(Clone, Debug)]
enum Act {
    On(usize),
    Off(usize),
    AddI(usize, usize),
    Inv(usize),
    OffI(usize),
}
struct It {
    k: Option<K>,
    cid: usize,
    script: usize,
    done: usize,
    runs: usize,
    /// scheduled at / consumed until
    since: u64,
    first: bool,
    last_pass: usize,
}
#[derive(Default)]
struct M {
    now: u64,
    tick: usize,
    budget: usize,
    items: Vec<It>,
    queue: VecDeque<Act>,
    active: Vec<usize>,
    inv: BTreeMap<usize, usize>,
    pending: Vec<usize>,
    log: Log,
    scripts: Scripts,
}
impl M {
    fn act(&mut self, o: &O) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let id = self.items.len();
        match o {
            O::S(k, c, script) => {
                let (done, first) = match k {
                    K::Rep(_, imm, _, done) => (*done, *imm),
                    K::Cont(done) => (*done, false),
                    _ => (1, false),
                };
                self.items.push(It { k: Some(k.clone()), cid: *c, script: *script, done, runs: 0, since: self.now, first, last_pass: 0 });
                self.queue.push_back(Act::On(id));
            }
            O::A(i, done, script) => {
                self.items.push(It { k: None, cid: 99, script: *script, done: *done, runs: 0, since: 0, first: false, last_pass: 0 });
                self.queue.push_back(Act::AddI(*i, id));
            }
            O::X(c) => self.queue.push_back(Act::Off(*c)),
            O::I(i) => self.queue.push_back(Act::Inv(*i)),
            O::XI(i) => self.queue.push_back(Act::OffI(*i)),
            O::T(_) => {}
        }
    }
    /// one run; whether the item is done
    fn ran(&mut self, id: usize) -> bool {
        self.log.push((self.tick, id, self.now));
        let it = &mut self.items[id];
        let acts = self.scripts.get(it.script).and_then(|s| s.get(it.runs)).cloned().unwrap_or_default();
        it.runs += 1;
        let d = it.runs >= it.done;
        for a in acts {
            self.act(&a);
        }
        d
    }
    fn tick(&mut self, d: u64) {
        self.now += d;
        self.tick += 1;
        for _ in 0..2000 {
            let any = !self.queue.is_empty();
            for a in std::mem::take(&mut self.queue) {
                match a {
                    Act::On(i) => self.active.push(i),
                    Act::Off(c) => {
                        let items = &self.items;
                        self.active.retain(|i| items[*i].cid != c)
                    }
                    Act::AddI(k, i) => {
                        self.inv.insert(k, i);
                    }
                    Act::Inv(k) => self.pending.push(k),
                    Act::OffI(k) => {
                        self.inv.remove(&k);
                        self.pending.retain(|x| *x != k);
                    }
                }
            }
            let mut worked = false;
            for id in self.active.clone() {
                if self.items[id].last_pass == self.tick {
                    continue;
                }
                self.items[id].last_pass = self.tick;
                worked = true;
                let done = match self.items[id].k.clone().unwrap() {
                    K::Delay(d) => self.items[id].since.checked_add(d).is_some_and(|t| t <= self.now) && self.ran(id),
                    K::Now | K::Cont(_) => self.ran(id),
                    K::Rep(d, _, max, _) => {
                        let max = max.max(1);
                        let it = &mut self.items[id];
                        let mut due = std::mem::take(&mut it.first) as u64;
                        if d == 0 {
                            due = max as u64;
                        } else {
                            due += (self.now - it.since) / d;
                            it.since += (self.now - it.since) / d * d;
                        }
                        let mut done = false;
                        for _ in 0..due.min(max as u64) {
                            if !done {
                                done = self.ran(id);
                            }
                        }
                        done
                    }
                };
                if done {
                    self.active.retain(|i| *i != id);
                }
            }
            for k in std::mem::take(&mut self.pending) {
                if let Some(id) = self.inv.get(&k).copied() {
                    if self.ran(id) {
                        self.inv.remove(&k);
                    }
                }
            }
            if !worked && !any {
                return;
            }
        }
    }
}
fn model(p: &Prog, budget: usize) -> (Log, Vec<bool>) {
    let mut m = M { budget, scripts: p.scripts.clone(), ..Default::default() };
    let mut empty = vec![];
    for o in &p.top {
        match o {
            O::T(d) => {
                m.tick(*d);
                empty.push(m.active.is_empty() && m.inv.is_empty());
            }
            o => m.act(o),
        }
    }
    (m.log, empty)
}
fn run(p: &Prog, budget: usize) -> Result<(), String> {
    let (want, wempty) = model(p, budget);
    let (got, gempty) = real(p, budget);
    eq("runs as (tick, item, time)", got, want)?;
    eq("is_empty after every tick", gempty, wempty)
}
fn main() {
    main_with(|c| {
        const NEVER: usize = usize::MAX;
        let kinds = [K::Delay(0), K::Delay(10), K::Delay(u64::MAX), K::Rep(u64::MAX, true, 1, NEVER), K::Now, K::Rep(10, false, 2, NEVER), K::Rep(7, true, 3, 4), K::Rep(0, false, 2, NEVER), K::Cont(NEVER), K::Cont(2)];
        // one item, any ticks, cancelled at any point
        let dts = [0u64, 1, 7, 10, 25, 100];
        for k in &kinds {
            for ts in seqs(&dts, c.size(3, 5)) {
                for at in 0..=ts.len() {
                    let mut top = vec![O::T(3), O::S(k.clone(), 0, 0)];
                    for (i, t) in ts.iter().enumerate() {
                        if i == at {
                            top.push(O::X(0));
                        }
                        top.push(O::T(*t));
                    }
                    let p = Prog { top, scripts: vec![] };
                    let d = format!("{p:?}");
                    c.case("one item", &d, || run(&p, 100));
                }
            }
        }
        // invoked work
        let alpha = vec![O::A(0, NEVER, 0), O::A(1, 2, 0), O::I(0), O::I(1), O::XI(0), O::XI(1), O::T(5)];
        for mut t in seqs(&alpha, c.size(5, 6)) {
            t.push(O::T(5));
            let p = Prog { top: t, scripts: vec![] };
            let d = format!("{p:?}");
            c.case("invoked work", &d, || run(&p, 100));
        }
        // two items under two identities
        let alpha = vec![O::S(K::Delay(10), 0, 0), O::S(K::Rep(5, false, 9, NEVER), 1, 0), O::S(K::Now, 0, 0), O::X(0), O::X(1), O::T(5), O::T(12)];
        for mut t in seqs(&alpha, c.size(5, 6)) {
            t.push(O::T(20));
            let p = Prog { top: t, scripts: vec![] };
            let d = format!("{p:?}");
            c.case("identities", &d, || run(&p, 100));
        }
        // many items under one identity, and many invocations
        for n in [20usize, 70, 300, 1100] {
            for k in &kinds {
                for x in [false, true] {
                    let mut top: Vec<O> = (0..n).map(|i| O::S(k.clone(), i % 2, 0)).collect();
                    top.push(O::T(5));
                    if x {
                        top.push(O::X(1));
                    }
                    top.extend([O::T(5), O::T(30)]);
                    let p = Prog { top, scripts: vec![] };
                    let d = format!("{p:?}");
                    c.case("many items", &d, || run(&p, 100_000));
                }
            }
            let mut top: Vec<O> = (0..4).map(|i| O::A(i, NEVER, 0)).collect();
            top.extend((0..n).map(|i| O::I(i % 4)));
            top.extend([O::XI(1), O::T(5), O::I(2), O::T(5)]);
            let p = Prog { top, scripts: vec![] };
            let d = format!("{p:?}");
            c.case("many invocations", &d, || run(&p, 100_000));
        }
        // everything, also from inside work
        let mut r = c.rng("s11");
        for _ in 0..c.rounds(40000) {
            let op = |r: &mut Rng, tick: bool| -> O {
                let d = [0u64, 1, 5, 10, 33, 1000, 86_400_000_000_000][if r.chance(90) { r.below(6) } else { 6 }];
                let done = if r.chance(40) { 1 + r.below(4) } else { NEVER };
                match r.below(if tick { 16 } else { 10 }) {
                    0 => O::S(K::Delay(d), r.below(4), r.below(4)),
                    1 => O::S(K::Now, r.below(4), r.below(4)),
                    2 => O::S(K::Rep(if d > 40 { 40 } else { d }, r.chance(40), r.below(5), done), r.below(4), r.below(4)),
                    3 => O::S(K::Cont(done), r.below(4), r.below(4)),
                    4 => O::X(r.below(4)),
                    5 | 6 => O::A(r.below(4), done, r.below(4)),
                    7 | 8 => O::I(r.below(4)),
                    9 => O::XI(r.below(4)),
                    _ => O::T(if d > 1000 { 2000 } else { d }),
                }
            };
            let top = (0..r.below(16)).map(|_| op(&mut r, true)).chain([O::T(50), O::T(500)]).collect();
            let scripts = (0..4).map(|_| (0..r.below(4)).map(|_| (0..r.below(3)).map(|_| op(&mut r, false)).collect()).collect()).collect();
            let p = Prog { top, scripts };
            let d = format!("{p:?}");
            c.case("random program", &d, || run(&p, 40));
        }
    });
}
