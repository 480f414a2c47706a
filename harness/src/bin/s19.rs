//! source observables: the sequence every subscription gets
use vh::prelude::*;
use rx_core::prelude::*;
use vh::cat::Exec;
use std::sync::atomic::{AtomicUsize, Ordering};

type H = RecH<i64, i64>;
type Hn = RecH<i64, Never>;
type NEv = Ev<i64, Never>;

/// counts how often it is pulled, by every iteration separately
#[derive(Clone, Debug)]
struct Src {
    items: Vec<i64>,
    pulls: Arc<Mutex<Vec<usize>>>,
}
struct It {
    items: Vec<i64>,
    at: usize,
    me: usize,
    pulls: Arc<Mutex<Vec<usize>>>,
}
impl IntoIterator for Src {
    type Item = i64;
    type IntoIter = It;
    fn into_iter(self) -> It {
        let me = {
            let mut g = lk(&self.pulls);
            g.push(0);
            g.len() - 1
        };
        It { items: self.items, at: 0, me, pulls: self.pulls }
    }
}
impl Iterator for It {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        lk(&self.pulls)[self.me] += 1;
        let r = self.items.get(self.at).copied();
        self.at += 1;
        r
    }
}
fn src(items: &[i64]) -> Src {
    Src { items: items.to_vec(), pulls: Arc::new(Mutex::new(vec![])) }
}
fn hn(k: Option<usize>) -> Hn {
    match k {
        Some(0) => {
            let h = Hn::new();
            h.rec().unsubscribe();
            h.clear();
            h
        }
        Some(k) => Hn::closing_after(k),
        None => Hn::new(),
    }
}
/// what a subscriber closing after `k` values gets from a finite sequence
fn want(items: &[i64], k: Option<usize>) -> Vec<NEv> {
    match k {
        Some(k) if k <= items.len() => items[..k].iter().map(|v| Ev::N(*v)).collect(),
        _ => items.iter().map(|v| Ev::N(*v)).chain([Ev::C]).collect(),
    }
}
fn iterator(items: &[i64], ks: &[Option<usize>], extra: bool) -> Result<(), String> {
    let s = src(items);
    let mut o = IteratorObservable::new(s.clone());
    for (i, k) in ks.iter().enumerate() {
        let h = hn(*k);
        let mut sub = o.subscribe(h.rec());
        eq("signals", h.sig(), want(items, *k))?;
        ensure(sub.is_closed() && h.closed(), "closed after everything is delivered")?;
        let no_vals = h.after_close().iter().all(|e| e.term());
        ensure(no_vals, "nothing into a closed subscriber")?;
        eq("fresh iterations", lk(&s.pulls).len(), i + 1)?;
        let pulled = lk(&s.pulls)[i];
        let most = match k {
            Some(k) if *k <= items.len() => *k,
            _ => items.len() + 1,
        };
        ensure(pulled <= most, format!("pulled {pulled} times, {most} are enough"))?;
        if extra {
            let n = Arc::new(AtomicUsize::new(0));
            let m = n.clone();
            sub.add_teardown(Teardown::new(move || {
                m.fetch_add(1, Ordering::SeqCst);
            }));
            eq("a teardown added later runs at once", n.load(Ordering::SeqCst), 1)?;
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum T {
    Tick,
    Unsub,
    Drop,
}
fn ticked(items: &[i64], start: bool, nth: usize, ks: &[Option<usize>], ops: &[(usize, T)], own: bool) -> Result<(), String> {
    let mut ex = Exec::default();
    let s = src(items);
    let mut o = IteratorOnTickObservable::new(s.clone(), OnTickObservableOptions { start_on_subscribe: start, emit_at_every_nth_tick: nth }, ex.handle());
    struct M {
        got: usize,
        since: usize,
        over: bool,
    }
    let mut ms_: Vec<M> = vec![];
    let mut hs = vec![];
    let mut subs: Vec<Arc<Mutex<Option<Box<dyn SubscriptionLike + Send + Sync>>>>> = vec![];
    for k in ks {
        let h = if own { Hn::new() } else { hn(*k) };
        let slot: Arc<Mutex<Option<Box<dyn SubscriptionLike + Send + Sync>>>> = Arc::new(Mutex::new(None));
        if own && let Some(k) = *k {
            // unsubscribes its own subscription while it is being delivered to
            let (mut n, sl) = (0, slot.clone());
            h.set_hook(move |_, e| {
                if let Ev::N(_) = e {
                    n += 1;
                    if n == k {
                        let t = lk(&sl).take();
                        if let Some(mut t) = t {
                            t.unsubscribe();
                        }
                    }
                }
            });
        }
        let sub = o.subscribe(h.rec());
        *lk(&slot) = Some(Box::new(sub));
        subs.push(slot);
        hs.push(h);
        ms_.push(M { got: 0, since: 0, over: false });
    }
    let check = |m: &mut M, h: &Hn, k: Option<usize>, at: &str| -> Result<(), String> {
        let w: Vec<NEv> = items[..m.got].iter().map(|v| Ev::N(*v)).collect();
        let g = h.sig();
        let limit = k.filter(|_| !own).is_some_and(|k| k <= m.got);
        if limit {
            m.over = true
        }
        if m.over {
            ensure(h.closed(), format!("{at}: still open"))?
        }
        if g == w {
            // may complete as late as the next turn
            ensure(m.over || m.got < items.len() || m.since < nth.max(1) && nth > 0, format!("{at}: did not complete: {g:?}"))?;
        } else {
            let mut c = w.clone();
            c.push(Ev::C);
            eq(at, g, c)?;
            ensure(!limit && m.got == items.len(), format!("{at}: completed too early"))?;
            m.over = true;
            ensure(h.closed(), format!("{at}: completed but open"))?;
        }
        ensure(h.after_close().iter().all(|e| e.term()), format!("{at}: delivered into a closed subscriber"))
    };
    for i in 0..ks.len() {
        let m = &mut ms_[i];
        if ks[i] == Some(0) && !own {
            m.over = true
        } else if nth == 0 {
            m.got = items.len().min(if own { usize::MAX } else { ks[i].unwrap_or(usize::MAX) })
        } else if start && !items.is_empty() {
            m.got = 1
        }
        check(m, &hs[i], ks[i], "on subscribe")?;
    }
    for (j, (i, op)) in ops.iter().enumerate() {
        let i = *i % ks.len();
        match op {
            T::Tick => {
                for m in ms_.iter_mut() {
                    if m.over || nth == 0 {
                        continue;
                    }
                    m.since += 1;
                    if m.since >= nth && m.got < items.len() {
                        m.since = 0;
                        m.got += 1;
                    }
                }
                ex.tick((j as u64 * 7) % 40);
            }
            T::Unsub => {
                if let Some(t) = lk(&subs[i]).as_mut() {
                    t.unsubscribe()
                }
                ms_[i].over = true;
            }
            T::Drop => {
                let t = lk(&subs[i]).take();
                if t.is_some() {
                    drop(t);
                    ms_[i].over = true;
                }
            }
        }
        for i in 0..ks.len() {
            let own_gone = own && ks[i].is_some_and(|k| k > 0 && k <= ms_[i].got && !(start && k == 1));
            check(&mut ms_[i], &hs[i], ks[i], &format!("after {op:?} #{j} subscriber {i}"))?;
            if own_gone {
                ensure(hs[i].closed(), "unsubscribed itself but is open")?;
                ms_[i].over = true
            }
            let gone = lk(&subs[i]).as_ref().is_none_or(|t| t.is_closed());
            ensure(!ms_[i].over || gone, "its subscription is still open")?;
        }
    }
    let open = ms_.iter().any(|m| !m.over);
    for s in &subs {
        let t = lk(s).take();
        drop(t);
    }
    ex.tick(1);
    ex.tick(1);
    ensure(ex.is_empty() || open && false, "work left in the scheduler")
}
#[derive(Clone, Copy, Debug)]
enum K {
    Just,
    Empty,
    Throw,
    Closed,
    Never,
}
fn plain(k: K, v: i64, closed: bool, times: usize) -> Result<(), String> {
    macro_rules! go {
        ($o:expr, $t:ty, $e:ty, $want:expr, $over:expr) => {{
            let mut o = $o;
            for _ in 0..times {
                let h = RecH::<$t, $e>::new();
                if closed {
                    h.rec().unsubscribe();
                    h.clear();
                }
                let mut sub = o.subscribe(h.rec());
                let w: Vec<Ev<$t, $e>> = if closed { vec![] } else { $want };
                eq("signals", h.sig(), w)?;
                if $over || closed {
                    ensure(h.closed() && sub.is_closed(), "has to be closed at once")?;
                } else {
                    ensure(!h.closed() && !sub.is_closed(), "has to stay open")?;
                }
                let n = Arc::new(AtomicUsize::new(0));
                let m = n.clone();
                sub.add_teardown(Teardown::new(move || {
                    m.fetch_add(1, Ordering::SeqCst);
                }));
                if $over || !closed {
                    eq("teardown", n.load(Ordering::SeqCst), if $over { 1 } else { 0 })?;
                }
                sub.unsubscribe();
                eq("teardown at the end", n.load(Ordering::SeqCst), 1)?;
                ensure(h.closed() && sub.is_closed(), "unsubscribed")?;
                eq("after unsubscribe", h.sig().len(), { let w: Vec<Ev<$t, $e>> = if closed { vec![] } else { $want }; w.len() })?;
            }
        }};
    }
    match k {
        K::Just => go!(just(v), i64, Never, vec![Ev::N(v), Ev::C], true),
        K::Empty => go!(empty(), Never, Never, vec![Ev::C], true),
        K::Throw => go!(throw(v), Never, i64, vec![Ev::E(v)], true),
        K::Closed => go!(closed_(), Never, Never, vec![], true),
        K::Never => go!(never(), Never, Never, vec![], false),
    }
    Ok(())
}
fn closed_() -> ClosedObservable {
    closed()
}
fn conformant(p: &[Ev<i64, i64>]) -> Vec<Ev<i64, i64>> {
    let mut o = vec![];
    for e in p {
        if matches!(e, Ev::U) {
            break;
        }
        o.push(e.clone());
        if e.term() {
            break;
        }
    }
    o
}
fn ends(p: &[Ev<i64, i64>]) -> bool {
    p.iter().any(|e| e.term() || matches!(e, Ev::U))
}
fn create(p: &[Ev<i64, i64>], ks: &[Option<usize>]) -> Result<(), String> {
    let runs = Arc::new(AtomicUsize::new(0));
    let r2 = runs.clone();
    let q = p.to_vec();
    let mut o = create_observable::<i64, i64, _>(move |d: &mut dyn Subscriber<In = i64, InError = i64>| {
        r2.fetch_add(1, Ordering::SeqCst);
        for e in q {
            if d.is_closed() {
                break;
            }
            match e {
                Ev::N(v) => d.next(v),
                Ev::E(v) => d.error(v),
                Ev::C => d.complete(),
                Ev::U => d.unsubscribe(),
            }
        }
    });
    eq("not before a subscription", runs.load(Ordering::SeqCst), 0)?;
    for (i, k) in ks.iter().enumerate() {
        let h = match k {
            Some(k) => H::closing_after(*k),
            None => H::new(),
        };
        let mut sub = o.subscribe(h.rec());
        eq("producer runs", runs.load(Ordering::SeqCst), i + 1)?;
        let mut w = conformant(p);
        let mut over = ends(p);
        if let Some(k) = k
            && *k <= w.len()
        {
            w.truncate(*k);
            over = true;
        }
        eq("signals", h.sig(), w.clone())?;
        ensure(h.closed() == over && sub.is_closed() == over, "open exactly until ended")?;
        sub.unsubscribe();
        ensure(h.closed() && sub.is_closed(), "unsubscribed")?;
        eq("signals after", h.sig(), w)?;
    }
    eq("producer runs", runs.load(Ordering::SeqCst), ks.len())
}
fn deferred(pre: &[Vec<Ev<i64, i64>>], later: &[Vec<Ev<i64, i64>>]) -> Result<(), String> {
    let made: Arc<Mutex<Vec<Script<i64, i64>>>> = Arc::new(Mutex::new(vec![]));
    let (m2, p2) = (made.clone(), pre.to_vec());
    let mut o = deferred_observable(move || {
        let n = lk(&m2).len();
        let s = Script::with(p2[n].clone());
        lk(&m2).push(s.clone());
        s
    });
    ensure(lk(&made).is_empty(), "no source before a subscription")?;
    let mut all = vec![];
    for i in 0..pre.len() {
        let h = H::new();
        let sub = o.subscribe(h.rec());
        eq("one source per subscription", lk(&made).len(), i + 1)?;
        eq("subscribed to once", (&lk(&made)[i]).count(), 1)?;
        eq("at once", h.sig(), conformant(&pre[i]))?;
        all.push((h, sub));
    }
    let n = later.iter().map(|l| l.len()).max().unwrap_or(0);
    for j in 0..n {
        for i in 0..pre.len() {
            if let Some(e) = later[i].get(j) {
                let s = lk(&made)[i].clone();
                s.conn(0).offer(e.clone());
            }
        }
    }
    for (i, (h, mut sub)) in all.into_iter().enumerate() {
        let mut w = pre[i].clone();
        w.extend(later[i].clone());
        eq("signals", h.sig(), conformant(&w))?;
        eq("open", sub.is_closed(), ends(&w))?;
        sub.unsubscribe();
        ensure(h.closed(), "unsubscribed")?;
        let s = lk(&made)[i].clone();
        ensure(s.closed(0), "the source is released")?;
    }
    Ok(())
}

fn main() {
    main_with(|c| {
        let ks = [None, Some(0), Some(1), Some(2), Some(3), Some(4)];
        for n in 0..=c.size(4, 6) {
            let items: Vec<i64> = (0..n as i64).map(|v| v * 3 + 1).collect();
            for a in ks {
                for b in ks {
                    c.case("iterator", &format!("{items:?} closing after {a:?} {b:?}"), || iterator(&items, &[a, b, None], true));
                }
            }
        }
        for n in [70usize, 300, 1100, 5000] {
            let items: Vec<i64> = (0..n as i64).map(|v| v * 3 + 1).collect();
            for k in [None, Some(n - 1), Some(n), Some(60)] {
                c.case("iterator", &format!("{n} items closing after {k:?}"), || iterator(&items, &[k, None], true));
            }
        }
        for (n, nth) in [(70usize, 1), (300, 1), (600, 2), (9, 70), (5, 300), (300, 0)] {
            let items: Vec<i64> = (0..n as i64).collect();
            let ops: Vec<(usize, T)> = (0..n * nth + 2).map(|_| (0, T::Tick)).collect();
            for start in [false, true] {
                c.case("iterator on tick: many", &format!("{n} items start={start} nth={nth}"), || ticked(&items, start, nth, &[None], &ops, false));
            }
        }
        for k in [K::Just, K::Empty, K::Throw, K::Closed, K::Never] {
            for v in [0, -3, i64::MAX] {
                for cl in [false, true] {
                    c.case("constant sources", &format!("{k:?} {v} closed={cl}"), || plain(k, v, cl, 3));
                }
            }
        }
        let alpha = [Ev::N(1), Ev::N(2), Ev::E(5), Ev::C, Ev::U];
        for len in 0..=c.size(4, 5) {
            for p in seqs(&alpha, len) {
                for k in [None, Some(1), Some(2)] {
                    c.case("create", &format!("{p:?} {k:?}"), || create(&p, &[None, k, None]));
                }
            }
        }
        let mut r = c.rng("deferred");
        for _ in 0..c.rounds(600) {
            let n = 1 + r.below(3);
            let g = |r: &mut Rng| -> Vec<Ev<i64, i64>> { (0..r.below(4)).map(|_| alpha[r.below(12) % 7 % 5].clone()).collect() };
            let pre: Vec<_> = (0..n).map(|_| conformant_u(&g(&mut r))).collect();
            let later: Vec<_> = (0..n).map(|_| g(&mut r)).collect();
            c.case("deferred", &format!("{pre:?} then {later:?}"), || deferred(&pre, &later));
        }
        for n in 0..=4usize {
            let items: Vec<i64> = (0..n as i64).collect();
            for start in [false, true] {
                for nth in 0..=3 {
                    for k in ks {
                        for own in [false, true] {
                            let ops: Vec<(usize, T)> = (0..(n + 2) * nth.max(1) + 2).map(|_| (0, T::Tick)).collect();
                            c.case("iterator on tick", &format!("{n} items start={start} nth={nth} closing={k:?} own={own}"), || ticked(&items, start, nth, &[k], &ops, own));
                        }
                    }
                }
            }
        }
        let mut r = c.rng("ticks");
        for _ in 0..c.rounds(1500) {
            let items: Vec<i64> = (0..r.below(7) as i64).collect();
            let (start, nth, own) = (r.chance(50), r.below(4), r.chance(40));
            let ks: Vec<Option<usize>> = (0..1 + r.below(3)).map(|_| if r.chance(50) { None } else { Some(r.below(5)) }).collect();
            let ops: Vec<(usize, T)> = (0..r.below(20)).map(|_| (r.below(3), match r.below(14) { 0 => T::Unsub, 1 => T::Drop, _ => T::Tick })).collect();
            c.case("iterator on tick: random", &format!("{items:?} start={start} nth={nth} {ks:?} own={own} {ops:?}"), || ticked(&items, start, nth, &ks, &ops, own));
        }
    });
}
fn conformant_u(p: &[Ev<i64, i64>]) -> Vec<Ev<i64, i64>> {
    let mut o = vec![];
    for e in p {
        o.push(e.clone());
        if e.term() || matches!(e, Ev::U) {
            break;
        }
    }
    o
}
