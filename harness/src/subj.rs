//! Subjects: every history of sends, subscriptions and unsubscriptions, also from inside
//! callbacks. The run records the calls in the order they were made; the oracle derives from that
//! trace alone what every subscriber has to receive.
use rx_core::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use crate::prelude::*;

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    N(i64),
    E(i64),
    C,
    /// unsubscribe the subject itself
    X,
    /// subscribe; the subscriber acts as script number n says
    S(usize),
    /// unsubscribe / drop the n-th subscription
    U(usize),
    D(usize),
}
/// what a subscriber does on its n-th signal
pub type Acts = Vec<Vec<A>>;
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub top: Vec<A>,
    pub scripts: Vec<Acts>,
    /// the subscriber closes by itself after so many values
    pub take: Vec<Option<usize>>,
    /// what its teardown does
    pub fin: Vec<Vec<A>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    Call(A),
    Sub(usize, usize),
    /// the call at that place of the trace returned
    Done(usize),
    /// a subscriber saw the subject's completion
    Seen,
}
#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Publish,
    /// starts with the value 0
    Behavior,
    Replay(usize),
    Async(fn(i64, i64) -> i64),
}
pub trait Sj: 'static {
    type S: Observable<Out = i64, OutError = i64> + RxObserver<In = i64, InError = i64> + SubscriptionLike + Clone + Send + Sync + 'static;
    fn make() -> Self::S;
    const KIND: Kind;
    /// what the accessor says is stored
    fn stored(s: &Self::S) -> Option<Vec<i64>>;
}
pub struct Publ;
impl Sj for Publ {
    type S = PublishSubject<i64, i64>;
    fn make() -> Self::S {
        Default::default()
    }
    const KIND: Kind = Kind::Publish;
    fn stored(_: &Self::S) -> Option<Vec<i64>> {
        None
    }
}
pub struct Beh;
impl Sj for Beh {
    type S = BehaviorSubject<i64, i64>;
    fn make() -> Self::S {
        BehaviorSubject::new(0)
    }
    const KIND: Kind = Kind::Behavior;
    fn stored(s: &Self::S) -> Option<Vec<i64>> {
        Some(vec![s.value()])
    }
}
pub struct Rep<const N: usize>;
impl<const N: usize> Sj for Rep<N> {
    type S = ReplaySubject<N, i64, i64>;
    fn make() -> Self::S {
        Default::default()
    }
    const KIND: Kind = Kind::Replay(N);
    fn stored(s: &Self::S) -> Option<Vec<i64>> {
        Some(s.values())
    }
}
pub struct Last;
impl Sj for Last {
    type S = AsyncSubject<i64, i64>;
    fn make() -> Self::S {
        Default::default()
    }
    const KIND: Kind = Kind::Async(|_, b| b);
    fn stored(s: &Self::S) -> Option<Vec<i64>> {
        Some(s.value().into_iter().collect())
    }
}
/// keeps a mixture of everything it got
pub fn mix(a: i64, b: i64) -> i64 {
    (a * 31 + b * 7 + 1) % 100_003
}
pub struct Mix;
impl Sj for Mix {
    type S = AsyncSubject<i64, i64>;
    fn make() -> Self::S {
        AsyncSubject::new(mix)
    }
    const KIND: Kind = Kind::Async(mix);
    fn stored(s: &Self::S) -> Option<Vec<i64>> {
        Some(s.value().into_iter().collect())
    }
}
struct World<S: Sj> {
    p: Prog,
    subj: Mutex<S::S>,
    /// subscriptions being given their history right now
    in_hist: AtomicUsize,
    hist_sends: bool,
    subs: Mutex<Vec<Option<MulticastSubscriptionBox>>>,
    logs: Mutex<Vec<Vec<IEv>>>,
    fins: Mutex<Vec<usize>>,
    trace: Mutex<Vec<Tr>>,
    top_level: AtomicUsize,
    budget: AtomicUsize,
    /// how deep in calls caused by calls: of each value, of the end, and now
    levels: Mutex<Vec<usize>>,
    end_level: AtomicUsize,
    cur: Mutex<Option<usize>>,
}
/// the built-in recursion limit is ten rounds
const LIMIT: usize = 8;
type MulticastSubscriptionBox = Box<dyn SubscriptionWithTeardown + Send + Sync>;
struct Dest<S: Sj> {
    w: std::sync::Weak<World<S>>,
    id: usize,
    script: usize,
    n: usize,
    busy: bool,
}
impl<S: Sj> ObserverInput for Dest<S> {
    type In = i64;
    type InError = i64;
}
impl<S: Sj> Dest<S> {
    fn put(&mut self, e: IEv) {
        let Some(w) = self.w.upgrade() else { return };
        let take = w.p.take.get(self.script).copied().flatten();
        if e == Ev::C && take.is_none_or(|t| self.n < t) {
            lk(&w.trace).push(Tr::Seen);
        }
        lk(&w.logs)[self.id].push(e);
        assert!(!self.busy, "a signal is delivered to a subscriber that is still handling another one");
        self.busy = true;
        let acts = w.p.scripts.get(self.script).and_then(|s| s.get(self.n)).cloned().unwrap_or_default();
        self.n += 1;
        let last = lk(&w.logs)[self.id].iter().rev().find_map(|e| if let Ev::N(x) = e { Some(lk(&w.levels).get(*x as usize).copied().unwrap_or(0)) } else { None });
        let is_value = matches!(lk(&w.logs)[self.id].last(), Some(Ev::N(_)));
        let mut l = last.unwrap_or(0).max(lk(&w.cur).unwrap_or(0));
        if !is_value {
            l = l.max(w.end_level.load(SeqCst));
        }
        let old = lk(&w.cur).replace(l);
        for a in acts {
            w.act(&a);
        }
        *lk(&w.cur) = old;
        self.busy = false;
    }
}
impl<S: Sj> RxObserver for Dest<S> {
    fn next(&mut self, n: i64) {
        self.put(Ev::N(n))
    }
    fn error(&mut self, e: i64) {
        self.put(Ev::E(e))
    }
    fn complete(&mut self) {
        self.put(Ev::C)
    }
}
impl<S: Sj> WithPrimaryCategory for Dest<S> {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl<S: Sj> UpgradeableObserver for Dest<S> {
    type Upgraded = ObserverSubscriber<Self>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
impl<S: Sj> World<S> {
    fn act(self: &Arc<Self>, a: &A) {
        if self.budget.fetch_update(SeqCst, SeqCst, |b| b.checked_sub(1)).is_err() {
            return;
        }
        if matches!(a, A::N(_)) && self.in_hist.load(SeqCst) > 0 && !self.hist_sends {
            return;
        }
        let level = lk(&self.cur).map_or(0, |l| l + 1);
        if level > LIMIT {
            return;
        }
        self.top_level.fetch_max(level, SeqCst);
        let a = &match a {
            A::N(_) => {
                let mut g = lk(&self.levels);
                g.push(level);
                A::N(g.len() as i64 - 1)
            }
            A::C | A::E(_) => {
                if !lk(&self.trace).iter().any(|t| matches!(t, Tr::Call(A::C | A::E(_)))) {
                    self.end_level.store(level, SeqCst);
                }
                a.clone()
            }
            a => a.clone(),
        };
        let mut s = lk(&self.subj).clone();
        match a {
            A::S(k) => {
                let id = {
                    let mut g = lk(&self.logs);
                    g.push(vec![]);
                    lk(&self.fins).push(0);
                    lk(&self.subs).push(None);
                    g.len() - 1
                };
                lk(&self.trace).push(Tr::Sub(id, *k));
                let d = Dest { w: Arc::downgrade(self), id, script: *k, n: 0, busy: false };
                let (w, script) = (Arc::downgrade(self), *k);
                let mut fin = rx_core::operator::FinalizeOperator::<i64, i64, _>::new(move || {
                    if let Some(w) = w.upgrade() {
                        lk(&w.fins)[id] += 1;
                        let acts = w.p.fin.get(script).cloned().unwrap_or_default();
                        let l = w.top_level.load(SeqCst);
                        let old = lk(&w.cur).replace(l);
                        for a in acts {
                            w.act(&a);
                        }
                        *lk(&w.cur) = old;
                    }
                });
                let d = fin.operator_subscribe(d.upgrade());
                self.in_hist.fetch_add(1, SeqCst);
                let sub: MulticastSubscriptionBox = match self.p.take.get(*k).copied().flatten() {
                    Some(n) => Box::new(s.take(n).subscribe(d)),
                    None => Box::new(s.subscribe(d)),
                };
                self.in_hist.fetch_sub(1, SeqCst);
                lk(&self.subs)[id] = Some(sub);
            }
            A::U(i) => {
                let t = lk(&self.subs).get_mut(*i).and_then(|x| x.take());
                if let Some(mut t) = t {
                    lk(&self.trace).push(Tr::Call(a.clone()));
                    t.unsubscribe();
                    t.unsubscribe();
                    lk(&self.subs)[*i] = Some(t);
                }
            }
            A::D(i) => {
                let t = lk(&self.subs).get_mut(*i).and_then(|x| x.take());
                if t.is_some() {
                    lk(&self.trace).push(Tr::Call(A::U(*i)));
                }
                drop(t);
            }
            _ => {
                let at = {
                    let mut g = lk(&self.trace);
                    g.push(Tr::Call(a.clone()));
                    g.len() - 1
                };
                match a {
                    A::N(x) => s.next(*x),
                    A::E(x) => s.error(*x),
                    A::C => s.complete(),
                    _ => s.unsubscribe(),
                }
                lk(&self.trace).push(Tr::Done(at));
            }
        }
    }
}
#[derive(PartialEq)]
enum St {
    Off,
    On,
    /// unsubscribed or ended
    Over,
}
/// what subscriber `id` has to receive, given the calls in the order they were made; whether its
/// subscription is over; what the subject stores
pub fn expected(kind: Kind, tr: &[Tr], id: usize, take: Option<usize>) -> (Vec<IEv>, bool, Vec<i64>) {
    let mut out: Vec<IEv> = vec![];
    let mut st = St::Off;
    let mut end: Option<IEv> = None;
    let mut gone = false;
    let mut hist: Vec<i64> = if matches!(kind, Kind::Behavior) { vec![0] } else { vec![] };
    let mut settled: Option<usize> = None;
    fn give(st: &mut St, out: &mut Vec<IEv>, take: Option<usize>, e: IEv) {
        if *st == St::On {
            let v = matches!(e, Ev::N(_));
            out.push(e);
            if !v {
                *st = St::Over;
            } else if take == Some(out.len()) {
                out.push(Ev::C);
                *st = St::Over;
            }
        }
    }
    for (at, t) in tr.iter().enumerate() {
        match t {
            Tr::Sub(i, _) if *i == id => {
                if take == Some(0) {
                    out.push(Ev::C);
                    st = St::Over;
                    continue;
                }
                st = St::On;
                if !matches!(end, Some(Ev::E(_))) && (!matches!(kind, Kind::Async(_)) || settled.is_some()) && !matches!(kind, Kind::Publish) {
                    for x in &hist {
                        give(&mut st, &mut out, take, Ev::N(*x));
                    }
                }
                if let Some(e) = &end {
                    give(&mut st, &mut out, take, e.clone());
                }
                if gone {
                    st = St::Over;
                }
            }
            Tr::Sub(..) => {}
            Tr::Call(A::U(i)) if *i == id && st == St::On => st = St::Over,
            Tr::Call(A::X) => {
                if st == St::On {
                    st = St::Over;
                }
                gone = true;
            }
            _ if gone || end.is_some() => {}
            Tr::Call(A::N(x)) if settled.is_none() => {
                match kind {
                    Kind::Publish => {}
                    Kind::Behavior => hist = vec![*x],
                    Kind::Replay(n) => {
                        hist.push(*x);
                        if hist.len() > n {
                            hist.remove(0);
                        }
                    }
                    Kind::Async(f) => hist = vec![hist.first().map_or(*x, |h| f(*h, *x))],
                }
                if !matches!(kind, Kind::Async(_)) {
                    give(&mut st, &mut out, take, Ev::N(*x));
                }
            }
            Tr::Call(A::E(x)) if settled.is_none() => {
                end = Some(Ev::E(*x));
                give(&mut st, &mut out, take, Ev::E(*x));
            }
            Tr::Call(A::C) if settled.is_none() => {
                settled = Some(at);
                if let Kind::Async(_) = kind {
                    if let Some(x) = hist.first() {
                        give(&mut st, &mut out, take, Ev::N(*x));
                    }
                } else {
                    end = Some(Ev::C);
                    give(&mut st, &mut out, take, Ev::C);
                }
            }
            // the completion of an async subject follows its result
            Tr::Done(_) | Tr::Seen if settled.is_some() && (*t == Tr::Seen || *t == Tr::Done(settled.unwrap())) => {
                end = Some(Ev::C);
                give(&mut st, &mut out, take, Ev::C);
            }
            _ => {}
        }
    }
    (out, st == St::Over, hist)
}
pub fn run<S: Sj>(p: &Prog, budget: usize, hist_sends: bool) -> Result<(), String> {
    let w = Arc::new(World::<S> {
        p: p.clone(),
        subj: Mutex::new(S::make()),
        in_hist: Default::default(),
        hist_sends,
        subs: Default::default(),
        logs: Default::default(),
        fins: Default::default(),
        trace: Default::default(),
        top_level: Default::default(),
        budget: AtomicUsize::new(budget),
        levels: Mutex::new(vec![0]),
        end_level: Default::default(),
        cur: Default::default(),
    });
    for (i, a) in p.top.iter().enumerate() {
        w.act(a);
        let tr = lk(&w.trace).clone();
        let logs = lk(&w.logs).clone();
        for (id, l) in logs.iter().enumerate() {
            let k = tr.iter().find_map(|t| if let Tr::Sub(i, k) = t { if *i == id { Some(*k) } else { None } } else { None }).unwrap();
            let (want, closed, _) = expected(S::KIND, &tr, id, p.take.get(k).copied().flatten());
            eq(&format!("signals of subscriber {id} after call {i} ({tr:?})"), l.clone(), want)?;
            let fins = lk(&w.fins)[id];
            eq(&format!("finalizations of subscriber {id} after call {i} ({tr:?})"), fins, closed as usize)?;
            let g = lk(&w.subs);
            if let Some(Some(s)) = g.get(id) {
                eq(&format!("is_closed of subscription {id} after call {i} ({tr:?})"), s.is_closed(), closed)?;
            }
        }
        let ended = tr.iter().any(|t| matches!(t, Tr::Call(A::C | A::E(_) | A::X)));
        let c = SubscriptionLike::is_closed(&*lk::<S::S>(&w.subj));
        let have = S::stored(&lk(&w.subj));
        if let Some(have) = have {
            eq(&format!("stored values after call {i} ({tr:?})"), have, expected(S::KIND, &tr, usize::MAX, None).2)?;
        }
        eq(&format!("is_closed of the subject after call {i}"), c, ended)?;
    }
    w.budget.store(0, SeqCst);
    let x: Vec<_> = lk(&w.subs).iter_mut().map(|x| x.take()).collect();
    drop(x);
    Ok(())
}
/// all the programs tried on one kind of subject
pub fn programs<S: Sj>(c: &mut Ctx, name: &str, less: usize) {
        let what = |w: &str| if name.is_empty() { w.to_string() } else { format!("{name}: {w}") };
        // plain histories, up to three subscribers
        let alpha = vec![A::N(1), A::E(5), A::C, A::X, A::S(0), A::U(0), A::U(1), A::D(0)];
        for mut t in seqs(&alpha, c.size(4, 6) - less) {
            for (i, a) in t.iter_mut().enumerate() {
                if let A::N(x) = a {
                    *x = i as i64;
                }
            }
            let p = Prog { top: t, scripts: vec![], take: vec![], fin: vec![] };
            let d = format!("{p:?}");
            c.case(&what("histories"), &d, || run::<S>(&p, 100, false));
        }
        // many subscribers, many values
        for n in if less == 0 { [9usize, 20, 70, 140] } else { [9, 20, 40, 70] } {
            for end in [A::C, A::E(5), A::X] {
                let mut t: Vec<A> = (0..n).map(|_| A::S(0)).collect();
                t.push(A::N(1));
                t.extend((0..n).filter(|i| i % 7 == 3).map(|i| if i % 2 == 0 { A::U(i) } else { A::D(i) }));
                t.extend((2..(if n > 100 { 12 } else { n as i64 })).map(A::N));
                t.extend([A::S(0), A::N(7000), end, A::S(0)]);
                let p = Prog { top: t, scripts: vec![], take: vec![], fin: vec![] };
                let d = format!("{p:?}");
                c.case(&what("many subscribers"), &d, || run::<S>(&p, 100_000, false));
            }
        }
        for n in [70i64, 300, if less == 0 || name == "replay(300)" { 700 } else { 100 }] {
            let p = Prog { top: [A::S(0)].into_iter().chain((0..n).map(A::N)).chain([A::S(0), A::C, A::S(0)]).collect(), scripts: vec![], take: vec![], fin: vec![] };
            let d = format!("{p:?}");
            c.case(&what("many values"), &d, || run::<S>(&p, 100_000, false));
        }
        // many calls from inside one callback, or one teardown
        for n in [12usize, 40, 70] {
            let calls = |k: usize| -> Vec<A> { (0..n).map(|i| match (i * k) % 5 { 0 => A::S(0), 1 => A::U(1), _ => A::N(100 + i as i64) }).collect() };
            for k in 1..4 {
                let top = vec![A::S(0), A::S(1), A::S(0), A::N(1), A::U(1), A::N(2), A::C];
                for p in [
                    Prog { top: top.clone(), scripts: vec![vec![], vec![calls(k)]], take: vec![], fin: vec![] },
                    Prog { top, scripts: vec![], take: vec![], fin: vec![vec![], calls(k)] },
                ] {
                    let d = format!("{p:?}");
                    c.case(&what("many calls from inside"), &d, || run::<S>(&p, 100_000, false));
                }
            }
        }
        // one acting subscriber next to passive ones
        let acts = vec![A::N(50), A::E(5), A::C, A::X, A::S(0), A::S(1), A::U(0), A::U(1), A::U(2), A::D(1), A::D(2)];
        let tops: Vec<Vec<A>> = vec![
            vec![A::S(0), A::S(1), A::S(0), A::N(1), A::N(2), A::C, A::S(0)],
            vec![A::S(0), A::S(1), A::S(0), A::C, A::S(1), A::N(3)],
            vec![A::S(1), A::S(1), A::E(7), A::S(0), A::S(1)],
            vec![A::C, A::S(1), A::S(0)],
            vec![A::E(4), A::S(1), A::S(0)],
            vec![A::S(0), A::S(1), A::N(1), A::U(1), A::N(2), A::X, A::S(0)],
        ];
        for t in &tops {
            for a0 in seqs(&acts, 2) {
                for a1 in seqs(&acts, 1) {
                    let p = Prog { top: t.clone(), scripts: vec![vec![], vec![a0.clone(), a1.clone()]], take: vec![], fin: vec![] };
                    let d = format!("{p:?}");
                    c.case(&what("calls from inside callbacks"), &d, || run::<S>(&p, 40, false));
                }
            }
        }
        for t in &tops {
            for a0 in seqs(&acts, 2) {
                let p = Prog { top: t.clone(), scripts: vec![], take: vec![], fin: vec![vec![], a0.clone()] };
                let d = format!("{p:?}");
                c.case(&what("calls from inside teardowns"), &d, || run::<S>(&p, 40, false));
            }
        }
        let mut r = c.rng(name);
        for _ in 0..c.rounds(if less > 0 { 1500 } else { 4000 }) {
            let mut k = 0;
            let mut seq = |r: &mut Rng, max: usize, top: bool| -> Vec<A> {
                (0..r.below(max + 1))
                    .map(|_| {
                        k += 1;
                        match r.below(20) {
                            0..=8 => A::N(k),
                            9..=12 => A::S(r.below(4)),
                            13..=14 => A::U(r.below(5)),
                            15 => A::D(r.below(5)),
                            16 if top || r.chance(30) => A::C,
                            17 if top || r.chance(30) => A::E(k),
                            18 if r.chance(30) => A::X,
                            _ => A::N(k),
                        }
                    })
                    .collect()
            };
            let mut top = vec![A::S(r.below(4))];
            top.extend(seq(&mut r, 8, true));
            let scripts = (0..4).map(|_| (0..r.below(4)).map(|_| seq(&mut r, 2, false)).collect()).collect();
            let take = (0..4).map(|_| if r.chance(25) { Some(r.below(4)) } else { None }).collect();
            let fin = if r.chance(50) { (0..4).map(|_| if r.chance(40) { seq(&mut r, 2, false) } else { vec![] }).collect() } else { vec![] };
            let p = Prog { top, scripts, take, fin };
            let d = format!("{p:?}");
            c.case(&what("random program"), &d, || run::<S>(&p, 24, false));
        }
}
