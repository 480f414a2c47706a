//! Re-entrancy through SharedSubscriber: every program of top-level calls and of calls made from
//! inside callbacks and teardowns, against a plain queue model.
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vh::cat::*;
use vh::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    N(i64),
    E(i64),
    C,
    U,
    /// add the teardown number n
    T(usize),
    /// drop one clone
    D(usize),
}
#[derive(Clone, Debug, Default)]
struct Prog {
    top: Vec<(A, usize)>,
    /// what the destination does while receiving its n-th signal
    on: Vec<Vec<(A, usize)>>,
    /// what the n-th teardown does when it runs
    td: Vec<Vec<(A, usize)>>,
}
const CLONES: usize = 3;
const LIMIT: usize = 9;

// ------------------------------------------------------------------------------- the model
#[derive(Default)]
struct Model {
    log: Vec<IEv>,
    q: VecDeque<(A, usize)>,
    accepted_end: bool,
    unsubbed: bool,
    closed: bool,
    busy: bool,
    level: usize,
    too_deep: bool,
    adds: Vec<usize>,
    alive: Vec<bool>,
    pending_td: Vec<usize>,
    /// closedness as seen at every callback
    seen_closed: Vec<bool>,
}
impl Model {
    fn act(&mut self, p: &Prog, a: A, h: usize) {
        if !self.alive[h] {
            return;
        }
        let lvl = if self.busy { self.level + 1 } else { 0 };
        match a {
            A::D(_) => {
                self.alive[h] = false;
            }
            A::N(_) if self.accepted_end => {}
            A::E(_) | A::C if self.accepted_end => {}
            A::U if self.unsubbed => {}
            _ => {
                match a {
                    A::E(_) | A::C => self.accepted_end = true,
                    A::U => {
                        self.accepted_end = true;
                        self.unsubbed = true
                    }
                    _ => {}
                }
                self.too_deep |= lvl > LIMIT;
                self.q.push_back((a, lvl));
            }
        }
        if self.busy || self.too_deep {
            return;
        }
        self.busy = true;
        while let Some((a, l)) = self.q.pop_front() {
            self.level = l;
            match a {
                A::T(k) => {
                    self.adds[k] += 1;
                    if self.closed {
                        self.run_td(p, k);
                    } else {
                        self.pending_td.push(k);
                    }
                }
                _ if self.closed => {}
                A::U => self.close(p),
                _ => {
                    let i = self.log.len();
                    self.log.push(match a {
                        A::N(x) => Ev::N(x),
                        A::E(x) => Ev::E(x),
                        _ => Ev::C,
                    });
                    self.seen_closed.push(self.accepted_end);
                    for (b, h) in p.on.get(i).cloned().unwrap_or_default() {
                        self.act(p, b, h);
                    }
                    if !matches!(a, A::N(_)) {
                        self.close(p);
                    }
                }
            }
            if self.too_deep {
                return;
            }
        }
        self.busy = false;
    }
    fn close(&mut self, p: &Prog) {
        self.closed = true;
        for k in std::mem::take(&mut self.pending_td) {
            self.run_td(p, k);
        }
    }
    fn run_td(&mut self, p: &Prog, k: usize) {
        for (b, h) in p.td.get(k).cloned().unwrap_or_default() {
            self.act(p, b, h);
        }
    }
}

// ------------------------------------------------------------------------------- the real code
type Sh = SharedSubscriber<ObserverSubscriber<Dest>>;
struct World {
    p: Prog,
    hs: Mutex<Vec<Option<Sh>>>,
    log: Mutex<Vec<IEv>>,
    seen_closed: Mutex<Vec<bool>>,
    busy: AtomicUsize,
    nested: AtomicUsize,
    disagree: Mutex<Vec<String>>,
    runs: Vec<AtomicUsize>,
    adds: Vec<AtomicUsize>,
}
impl World {
    fn handle(&self, i: usize) -> Option<Sh> {
        let g = lk(&self.hs);
        let r = g[i].clone();
        drop(g);
        r
    }
    fn closed_views(&self) -> Vec<bool> {
        let hs: Vec<Sh> = lk(&self.hs).iter().flatten().cloned().collect();
        hs.iter().map(|h| h.is_closed()).collect()
    }
    fn act(self: &Arc<Self>, a: A, h: usize) {
        if let A::D(_) = a {
            let x = lk(&self.hs)[h].take();
            drop(x);
            return;
        }
        let Some(mut s) = self.handle(h) else { return };
        match a {
            A::N(x) => s.next(x),
            A::E(x) => s.error(x),
            A::C => s.complete(),
            A::U => s.unsubscribe(),
            A::T(k) => {
                self.adds[k].fetch_add(1, SeqCst);
                let w = Arc::downgrade(self);
                s.add_teardown(Teardown::new(move || {
                    if let Some(w) = w.upgrade() {
                        w.runs[k].fetch_add(1, SeqCst);
                        for (b, h) in w.p.td.get(k).cloned().unwrap_or_default() {
                            w.act(b, h);
                        }
                    }
                }));
            }
            A::D(_) => {}
        }
    }
}
struct Dest(std::sync::Weak<World>);
impl ObserverInput for Dest {
    type In = i64;
    type InError = i64;
}
impl Dest {
    fn put(&self, e: IEv) {
        let Some(w) = self.0.upgrade() else { return };
        if w.busy.fetch_add(1, SeqCst) > 0 {
            w.nested.fetch_add(1, SeqCst);
        }
        let i = {
            let mut g = lk(&w.log);
            g.push(e);
            g.len() - 1
        };
        let v = w.closed_views();
        if v.iter().any(|x| *x != v[0]) {
            lk(&w.disagree).push(format!("at signal {i}: {v:?}"));
        }
        if let Some(c) = v.first() {
            lk(&w.seen_closed).push(*c);
        }
        for (b, h) in w.p.on.get(i).cloned().unwrap_or_default() {
            w.act(b, h);
        }
        w.busy.fetch_sub(1, SeqCst);
    }
}
impl RxObserver for Dest {
    fn next(&mut self, n: i64) {
        self.put(Ev::N(n))
    }
    fn error(&mut self, e: i64) {
        self.put(Ev::E(e))
    }
    fn complete(&mut self) {
        self.put(Ev::C)
    }
}
impl WithPrimaryCategory for Dest {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl UpgradeableObserver for Dest {
    type Upgraded = ObserverSubscriber<Self>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
fn max_td(p: &Prog) -> usize {
    p.top.iter().chain(p.on.iter().flatten()).chain(p.td.iter().flatten()).map(|(a, _)| if let A::T(k) = a { k + 1 } else { 0 }).max().unwrap_or(0)
}
fn run(p: &Prog) -> Result<(), String> {
    let n = max_td(p);
    let mut m = Model { alive: vec![true; CLONES], adds: vec![0; n], ..Default::default() };
    // a program that would nest too deep is outside the property
    {
        for (a, h) in &p.top {
            m.act(p, *a, *h);
            if m.too_deep {
                return Ok(());
            }
        }
        m = Model { alive: vec![true; CLONES], adds: vec![0; n], ..Default::default() };
    }
    let w = Arc::new_cyclic(|w: &std::sync::Weak<World>| {
        let s: Sh = SharedSubscriber::new(ObserverSubscriber::new(Dest(w.clone())));
        World {
            p: p.clone(),
            hs: Mutex::new((0..CLONES).map(|_| Some(s.clone())).collect()),
            log: Default::default(),
            seen_closed: Default::default(),
            busy: Default::default(),
            nested: Default::default(),
            disagree: Default::default(),
            runs: (0..n).map(|_| AtomicUsize::new(0)).collect(),
            adds: (0..n).map(|_| AtomicUsize::new(0)).collect(),
        }
    });
    for (i, (a, h)) in p.top.iter().enumerate() {
        w.act(*a, *h);
        m.act(p, *a, *h);
        eq(&format!("signals after call {i}"), lk(&w.log).clone(), m.log.clone())?;
        eq("deliveries nested in another delivery", w.nested.load(SeqCst), 0)?;
        for c in w.closed_views() {
            eq(&format!("is_closed after call {i}"), c, m.accepted_end)?;
        }
        for k in 0..n {
            let adds = w.adds[k].load(SeqCst);
            eq(&format!("teardown {k} added, after call {i}"), adds, m.adds[k])?;
            eq(&format!("runs of teardown {k} after call {i}"), w.runs[k].load(SeqCst), if m.closed { adds } else { 0 })?;
        }
    }
    let dis = lk(&w.disagree).clone();
    ensure(dis.is_empty(), format!("clones disagree on closedness {dis:?}"))?;
    if p.top.iter().chain(p.on.iter().flatten()).chain(p.td.iter().flatten()).all(|(a, _)| !matches!(a, A::D(_))) {
        eq("is_closed seen during each delivery", lk(&w.seen_closed).clone(), m.seen_closed.clone())?;
    }
    Ok(())
}

/// pipelines that share one destination between several upstreams: a signal of one upstream sent
/// while another one's is being delivered comes right after it, once
fn pipelines(c: &mut Ctx) {
    let names = ["merge", "merge_map", "combine_latest", "with_latest_from", "zip"];
    let acts: Vec<(usize, IEv)> = vec![(0, Ev::N(3)), (1, Ev::N(6)), (0, Ev::C), (1, Ev::C), (1, Ev::E(4))];
    for it in items() {
        if !names.contains(&it.name) {
            continue;
        }
        for top in seqs(&acts, 2) {
            for re in seqs(&acts, c.size(2, 3)) {
                for at in 0..2usize {
                    let what = format!("{} fed from inside its destination", it.name);
                    let input = format!("first a=Next 3, b=Next 6, then {top:?}; during delivery {at}: {re:?}");
                    let (top, re) = (top.clone(), re.clone());
                    c.case(&what, &input, || {
                        // the same signals, the re-entrant ones sent right after the outer one
                        let flat = |nested: bool| {
                            let ex = Exec::default();
                            let env = Env::new(&ex);
                            let out = Out::default();
                            let mut s = (it.make)(&env)(&out);
                            let later: Arc<Mutex<Vec<(usize, IEv)>>> = Default::default();
                            let cur = Arc::new(AtomicUsize::new(9));
                            let (e2, re2, l2, cur2) = (env.clone(), re.clone(), later.clone(), cur.clone());
                            *lk(&out.hook) = Some(Box::new(move |i| {
                                if i == at {
                                    // a source cannot send while it is sending
                                    for (w, e) in re2.iter().filter(|(w, _)| *w != cur2.load(SeqCst)) {
                                        if nested {
                                            if *w == 0 { e2.a.offer_all(e.clone()) } else { e2.b.offer_all(e.clone()) }
                                        } else {
                                            lk(&l2).push((*w, e.clone()));
                                        }
                                    }
                                }
                            }));
                            let mut all = vec![(0usize, Ev::N(3)), (1, Ev::N(6))];
                            all.extend(top.clone());
                            for (w, e) in all {
                                cur.store(w, SeqCst);
                                if w == 0 { env.a.offer_all(e) } else { env.b.offer_all(e) }
                                loop {
                                    let l = std::mem::take(&mut *lk(&later));
                                    if l.is_empty() {
                                        break;
                                    }
                                    for (w, e) in l {
                                        if w == 0 { env.a.offer_all(e) } else { env.b.offer_all(e) }
                                    }
                                }
                            }
                            *lk(&out.hook) = None;
                            let r = out.get();
                            s.unsubscribe();
                            r
                        };
                        eq("signals", flat(true), flat(false))
                    });
                }
            }
        }
    }
}

fn main() {
    main_with(|c| {
        // exhaustive small programs
        let base = |k: i64| vec![A::N(k), A::E(k), A::C, A::U, A::T(0)];
        let label = |s: &[A], from: i64, h: usize| -> Vec<(A, usize)> {
            s.iter().enumerate().map(|(i, a)| (match a { A::N(_) => A::N(from + i as i64), A::T(_) => A::T((from / 10) as usize * 2 + i), a => *a }, (h + i) % CLONES)).collect()
        };
        let s2 = seqs(&base(1), 2);
        let s_on = seqs(&base(1), 2);
        for t in &s2 {
            for o0 in &s_on {
                for o1 in &s_on {
                    let p = Prog { top: [vec![(A::N(0), 0)], label(t, 0, 1)].concat(), on: vec![label(o0, 10, 1), label(o1, 20, 2)], td: vec![] };
                    let d = format!("{p:?}");
                    c.case("calls from inside callbacks", &d, || run(&p));
                }
            }
        }
        // from inside teardowns
        for t in seqs(&base(1), 2) {
            for o in seqs(&base(1), 1) {
                for d in seqs(&[A::N(9), A::E(9), A::C, A::U, A::T(7)], 2) {
                    let dl: Vec<(A, usize)> = d.iter().enumerate().map(|(i, a)| (if let A::T(_) = a { A::T(7 + i) } else { *a }, i)).collect();
                    let p = Prog { top: [vec![(A::T(0), 0), (A::N(0), 1)], label(&t, 0, 1)].concat(), on: vec![label(&o, 10, 1)], td: vec![dl.clone(), dl.clone(), dl.clone()] };
                    // teardown 0, 1, 2 act; 7, 8 are plain
                    let d = format!("{p:?}");
                    c.case("calls from inside teardowns", &d, || run(&p));
                }
            }
        }
        // many calls from inside one callback, or one teardown
        for n in [12usize, 40, 150] {
            for last in base(9000) {
                let calls: Vec<(A, usize)> = (0..n).map(|i| (if i % 5 == 3 { A::T(10 + i) } else { A::N(10 + i as i64) }, i % CLONES)).chain([(last, 0), (A::N(9001), 1)]).collect();
                for p in [
                    Prog { top: vec![(A::N(0), 0), (A::N(1), 1), (A::N(2), 0)], on: vec![calls.clone()], td: vec![] },
                    Prog { top: vec![(A::T(0), 0), (A::N(1), 1), (A::U, 0), (A::N(2), 0)], on: vec![], td: vec![calls] },
                ] {
                    let d = format!("{p:?}");
                    c.case("many calls from inside", &d, || run(&p));
                }
            }
        }
        // deep chains up to the limit
        for n in 1..=LIMIT {
            for last in base(99) {
                let mut on: Vec<Vec<(A, usize)>> = (0..n - 1).map(|i| vec![(A::N(i as i64 + 1), i % CLONES), (A::N(100 + i as i64), 0)]).collect();
                on.truncate(n - 1);
                let single: Vec<Vec<(A, usize)>> = (0..n - 1).map(|i| vec![(A::N(i as i64 + 1), i % CLONES)]).chain([vec![(last, 1)]]).collect();
                for on in [on, single] {
                    let p = Prog { top: vec![(A::N(0), 0), (A::N(500), 1)], on, td: vec![] };
                    let d = format!("{p:?}");
                    c.case("nested chain", &d, || run(&p));
                }
            }
        }
        // random programs
        let mut r = c.rng("s08");
        for _ in 0..c.rounds(4000) {
            let mut k = 0i64;
            let mut tk = 0usize;
            let mut seq = |r: &mut vh::Rng, max: usize, closing: usize, deep: bool| -> Vec<(A, usize)> {
                (0..r.below(max + 1))
                    .map(|_| {
                        k += 1;
                        let h = r.below(CLONES);
                        let a = if r.chance(closing) {
                            *r.pick(&[A::E(k), A::C, A::U])
                        } else if r.chance(25) && deep {
                            tk += 1;
                            A::T(tk - 1)
                        } else if r.chance(4) && h != 0 {
                            A::D(h)
                        } else {
                            A::N(k)
                        };
                        (a, h)
                    })
                    .collect()
            };
            let cl = *r.pick(&[0, 5, 15]);
            let top = seq(&mut r, 6, cl, true);
            let on = (0..r.below(8)).map(|_| seq(&mut r, 3, cl, true)).collect();
            let td = (0..r.below(4)).map(|_| seq(&mut r, 2, 20, false)).collect();
            let p = Prog { top, on, td };
            let d = format!("{p:?}");
            c.case("random program", &d, || run(&p));
        }
        pipelines(c);
    });
}
