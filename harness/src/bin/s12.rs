//! delay, debounce_time, throttle_time, fallback_when_silent, interval and timer under every
//! schedule of sends and ticks, also with sends from inside a tick and from inside an emission,
//! against a model of which value is due when.
use rx_core::prelude::*;
use vh::cat::{ms, AnySub, Exec, Hnd, Out, TCtx};
use rx_core_scheduler_ticking::Tick;
use std::collections::{BTreeSet, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Delay(u64),
    Debounce(u64),
    Leading(u64),
    Trailing(u64),
    Both(u64),
    Fallback,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    N,
    E,
    C,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    /// now, between ticks
    Do(A),
    /// from inside a tick, scheduled that much later
    At(u64, A),
    U,
    T(u64),
}
#[derive(Clone, Debug)]
struct Prog {
    op: Op,
    /// scheduled before the operator is subscribed
    early: Vec<(u64, A)>,
    steps: Vec<S>,
    /// performed from inside the n-th emission
    nested: Vec<(usize, A)>,
}

// ---------------------------------------------------------------- model
#[derive(Clone, Debug)]
enum W {
    Send(u64, A),
    Delay(u64, i64),
    Deb(u64, i64, usize),
    Thr,
    Fb,
}
#[derive(Default)]
struct M {
    op: Option<Op>,
    now: u64,
    queue: VecDeque<Option<W>>, // None: cancel the operator's own work
    works: Vec<(usize, W)>,
    ids: usize,
    nested: Vec<(usize, A)>,
    sent: i64,
    // source
    busy: bool,
    waiting: VecDeque<(A, i64)>,
    ended: bool,
    // output
    log: Vec<Ev<String, String>>,
    closed: bool,
    outs: usize,
    // operator
    pending: usize,
    gen_: usize,
    completed: bool,
    unsubbed: bool,
    deadline: Option<u64>,
    tnow: u64,
    /// (known finding) a throttle window counts from the last tick that had throttle work
    stale: bool,
    last: Option<i64>,
    seen: Option<i64>,
    idx: usize,
}
impl M {
    fn d(&self) -> u64 {
        match self.op.unwrap() {
            Op::Delay(d) | Op::Debounce(d) | Op::Leading(d) | Op::Trailing(d) | Op::Both(d) => d,
            Op::Fallback => 0,
        }
    }
    fn src(&mut self, a: A) {
        self.sent += 1;
        let v = self.sent;
        if self.ended {
            return;
        }
        self.ended = a != A::N;
        self.waiting.push_back((a, v));
        if self.busy {
            return;
        }
        self.busy = true;
        while let Some((a, v)) = self.waiting.pop_front() {
            self.op_in(a, v);
        }
        self.busy = false;
    }
    fn out(&mut self, e: Ev<String, String>) {
        if self.closed {
            return;
        }
        self.closed = e.term();
        self.log.push(e);
        let n = self.outs;
        self.outs += 1;
        for (k, a) in self.nested.clone() {
            if k == n {
                self.src(a);
            }
        }
    }
    fn val(&mut self, v: i64) {
        self.out(Ev::N(format!("{v}")))
    }
    fn op_in(&mut self, a: A, v: i64) {
        if self.unsubbed || self.closed {
            return;
        }
        let op = self.op.unwrap();
        let due = self.now + self.d();
        let (lead, trail) = (matches!(op, Op::Leading(_) | Op::Both(_)), matches!(op, Op::Trailing(_) | Op::Both(_)));
        match a {
            A::N => match op {
                Op::Delay(_) => {
                    self.pending += 1;
                    self.queue.push_back(Some(W::Delay(due, v)));
                }
                Op::Debounce(_) => {
                    self.gen_ += 1;
                    self.pending = self.gen_;
                    self.queue.push_back(None);
                    self.queue.push_back(Some(W::Deb(due, v, self.gen_)));
                }
                Op::Fallback => self.seen = Some(v),
                _ => match self.deadline {
                    None => {
                        if !self.stale {
                            self.tnow = self.now;
                        }
                        self.deadline = Some(self.tnow + self.d());
                        self.queue.push_back(Some(W::Thr));
                        if lead {
                            self.val(v);
                        } else {
                            self.last = Some(v);
                        }
                    }
                    Some(t) => {
                        // still within the window until it is seen to be over
                        if t <= self.tnow {
                            self.deadline = Some(self.tnow + self.d());
                        }
                        if trail {
                            self.last = Some(v);
                        }
                    }
                },
            },
            A::E => {
                self.pending = 0;
                self.deadline = None;
                self.last = None;
                self.queue.push_back(None);
                self.out(Ev::E(format!("{v}")));
            }
            A::C => {
                self.completed = true;
                self.settle(true);
            }
        }
    }
    /// upstream is over: ends at once unless a value is still to come
    fn settle(&mut self, complete: bool) {
        let wait = match self.op.unwrap() {
            Op::Delay(_) | Op::Debounce(_) => self.pending > 0,
            Op::Fallback => false,
            _ => self.deadline.is_some() && self.last.is_some(),
        };
        if !wait {
            self.queue.push_back(None);
            self.deadline = None;
            self.last = None;
            self.finish(complete);
        }
    }
    fn finish(&mut self, complete: bool) {
        if complete {
            self.out(Ev::C);
        } else {
            self.closed = true;
        }
    }
    fn after(&mut self) {
        if self.completed {
            self.finish(true)
        } else if self.unsubbed {
            self.finish(false)
        }
    }
    /// true: the work is done
    fn run(&mut self, w: W) -> bool {
        match w {
            W::Send(due, a) => {
                if due > self.now {
                    return false;
                }
                self.src(a);
                true
            }
            W::Delay(due, v) => {
                if due > self.now {
                    return false;
                }
                self.val(v);
                self.pending = self.pending.saturating_sub(1);
                if self.pending == 0 {
                    self.after();
                }
                true
            }
            W::Deb(due, v, g) => {
                if due > self.now {
                    return false;
                }
                if self.pending == g {
                    self.pending = 0;
                }
                self.val(v);
                if self.pending == 0 {
                    self.after();
                }
                true
            }
            W::Thr => {
                self.tnow = self.now;
                let Some(t) = self.deadline else { return true };
                if t > self.now {
                    return false;
                }
                match self.last.take() {
                    Some(v) => {
                        let (c, u) = (self.completed, self.unsubbed);
                        self.val(v);
                        if c || u {
                            self.after();
                            return true;
                        }
                        self.closed
                    }
                    None => {
                        self.deadline = None;
                        true
                    }
                }
            }
            W::Fb => {
                let v = self.seen.take().unwrap_or(1000 + self.idx as i64);
                self.idx += 1;
                self.val(v);
                false
            }
        }
    }
    fn tick(&mut self, dt: u64) {
        self.now += dt;
        let mut ticked = BTreeSet::new();
        loop {
            let had = !self.queue.is_empty();
            while let Some(q) = self.queue.pop_front() {
                match q {
                    Some(w) => {
                        self.ids += 1;
                        self.works.push((self.ids, w));
                    }
                    None => self.works.retain(|(_, w)| matches!(w, W::Send(..))),
                }
            }
            let todo: Vec<(usize, W)> = self.works.iter().filter(|(i, _)| !ticked.contains(i)).cloned().collect();
            let none = todo.is_empty();
            for (i, w) in todo {
                ticked.insert(i);
                if self.run(w) {
                    self.works.retain(|(j, _)| *j != i);
                }
            }
            if none && !had {
                break;
            }
        }
    }
    fn step(&mut self, s: S) {
        match s {
            S::Do(a) => self.src(a),
            S::At(d, a) => self.queue.push_back(Some(W::Send(self.now + d, a))),
            S::U => {
                if !self.unsubbed && !self.closed && !self.completed {
                    self.unsubbed = true;
                    self.settle(false);
                }
            }
            S::T(d) => self.tick(d),
        }
    }
}
fn expected(p: &Prog, stale: bool) -> Vec<Ev<String, String>> {
    let mut m = M { op: Some(p.op), stale, nested: p.nested.clone(), ..Default::default() };
    for (d, a) in &p.early {
        m.step(S::At(*d, *a));
    }
    if p.op == Op::Fallback {
        m.queue.push_back(Some(W::Fb));
    }
    for s in &p.steps {
        m.step(*s);
    }
    m.step(S::T(1000));
    m.step(S::T(1000));
    m.log
}

// ---------------------------------------------------------------- real
type Src = PublishSubject<i64, i64>;
fn make(op: Op, s: Src, h: Hnd, out: &Out, calls: &Arc<AtomicUsize>) -> AnySub {
    let calls = calls.clone();
    use ThrottleOutputBehavior::*;
    let thr = |d: u64, o| ThrottleTimeOptions::new(ms(d)).with_output(o);
    match op {
        Op::Delay(d) => Box::new(s.delay(ms(d), h).subscribe(out.obs())),
        Op::Debounce(d) => Box::new(s.debounce_time(ms(d), h).subscribe(out.obs())),
        Op::Leading(d) => Box::new(s.throttle_time(thr(d, LeadingOnly), h).subscribe(out.obs())),
        Op::Trailing(d) => Box::new(s.throttle_time(thr(d, TrailingOnly), h).subscribe(out.obs())),
        Op::Both(d) => Box::new(s.throttle_time(thr(d, LeadingAndTrailing), h).subscribe(out.obs())),
        Op::Fallback => Box::new(s.fallback_when_silent(move |_: Tick, _: &mut TCtx, n: usize| {
            calls.fetch_add(1, Ordering::SeqCst);
            1000 + n as i64
        }, h).subscribe(out.obs())),
    }
}
#[derive(Clone)]
struct Sender {
    s: Src,
    n: Arc<AtomicUsize>,
}
impl Sender {
    fn go(&self, a: A) {
        let v = self.n.fetch_add(1, Ordering::SeqCst) as i64 + 1;
        let mut s = self.s.clone();
        match a {
            A::N => s.next(v),
            A::E => s.error(v),
            A::C => s.complete(),
        }
    }
}
fn real(p: &Prog) -> Vec<Ev<String, String>> {
    let mut ex = Exec::default();
    let h = ex.handle();
    let se = Sender { s: Src::default(), n: Default::default() };
    let at = |d: u64, a: A| {
        let se = se.clone();
        let mut g = h.lock();
        let id = g.generate_cancellation_id();
        g.schedule_delayed_work(move |_, _| se.go(a), ms(d), id);
    };
    for (d, a) in &p.early {
        at(*d, *a);
    }
    let out = Out::default();
    let (s2, nested) = (se.clone(), p.nested.clone());
    *lk(&out.hook) = Some(Box::new(move |n| {
        for (k, a) in &nested {
            if *k == n {
                s2.go(*a);
            }
        }
    }));
    let calls: Arc<AtomicUsize> = Default::default();
    let mut sub = make(p.op, se.s.clone(), h.clone(), &out, &calls);
    for s in &p.steps {
        match s {
            S::Do(a) => se.go(*a),
            S::At(d, a) => at(*d, *a),
            S::U => sub.unsubscribe(),
            S::T(d) => ex.tick(*d),
        }
    }
    ex.tick(1000);
    // what is over does not ask for fallbacks anymore
    let over = p.steps.contains(&S::U) || out.get().iter().any(|e| !matches!(e, Ev::N(_)));
    let asked = calls.load(Ordering::SeqCst);
    ex.tick(1000);
    assert!(!over || calls.load(Ordering::SeqCst) == asked, "the fallback is still asked for after the end");
    drop(sub);
    out.get()
}
fn check(c: &mut Ctx, what: &str, p: &Prog) {
    let name = format!("{:?} {what}", p.op).replace(|x: char| x.is_ascii_digit() || "()".contains(x), "");
    if !matches!(p.op, Op::Leading(_) | Op::Trailing(_) | Op::Both(_)) || expected(p, false) == expected(p, true) {
        return c.case(&name, &format!("{p:?}"), || eq("output", real(p), expected(p, false)));
    }
    // the two differ: exactly the finding, or right, or a violation
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(p)));
    let stale = matches!(&got, Ok(g) if *g == expected(p, true));
    c.case(if stale { "throttle_time: window after idle" } else { &name }, &format!("{p:?}"), || eq("output", real(p), expected(p, false)));
}

// ---------------------------------------------------------------- interval and timer
fn interval_case(d: u64, start: bool, max: usize, k: usize, ticks: &[u64], unsub: usize) -> Result<(), String> {
    let mut ex = Exec::default();
    let out = Out::default();
    let o = IntervalObservableOptions { duration: ms(d), start_on_subscribe: start, max_emissions_per_tick: max };
    ex.tick(3);
    let mut sub: AnySub = Box::new(interval(o, ex.handle()).take(k).subscribe(out.obs()));
    let (mut want, mut n, mut used, mut now) = (vec![], 0usize, 0u64, 0u64);
    let mut open = true;
    let emit = |want: &mut Vec<Ev<String, String>>, n: &mut usize, open: &mut bool| {
        if *open {
            want.push(Ev::N(format!("{n}")));
            *n += 1;
            if *n == k {
                want.push(Ev::C);
                *open = false;
            }
        }
    };
    if start {
        emit(&mut want, &mut n, &mut open);
    }
    for (i, t) in ticks.iter().enumerate() {
        if i == unsub {
            sub.unsubscribe();
            open = false;
        }
        ex.tick(*t);
        now += t;
        let max = max.max(1);
        if d == 0 {
            for _ in 0..max {
                emit(&mut want, &mut n, &mut open);
            }
        } else {
            let e = (now - used) / d;
            used += e * d;
            for _ in 0..(e as usize).min(max) {
                emit(&mut want, &mut n, &mut open);
            }
        }
        eq(&format!("interval {d}ms start {start} max {max} take {k} after tick {i} of {ticks:?} (unsubscribed before {unsub})"), out.get(), want.clone())?;
    }
    Ok(())
}
fn timer_case(d: u64, ticks: &[u64], unsub: usize) -> Result<(), String> {
    let mut ex = Exec::default();
    ex.tick(3);
    let out = Out::default();
    let mut sub: AnySub = Box::new(timer(ms(d), ex.handle()).subscribe(out.obs()));
    let (mut want, mut now, mut open) = (vec![], 0u64, true);
    for (i, t) in ticks.iter().enumerate() {
        if i == unsub {
            sub.unsubscribe();
            open = false;
        }
        ex.tick(*t);
        now += t;
        if open && now >= d {
            want.extend([Ev::N("()".to_string()), Ev::C]);
            open = false;
        }
        eq(&format!("timer {d}ms after tick {i} of {ticks:?} (unsubscribed before {unsub})"), out.get(), want.clone())?;
        eq("timer closed", sub.is_closed(), !open)?;
    }
    Ok(())
}

/// the subscription is ended from within the delivery of a scheduled value: nothing comes after it,
/// and its teardowns run once, by the end of the next tick
fn within(c: &mut Ctx) {
    type Slot = Arc<Mutex<Option<SharedSubscription>>>;
    type Mk = fn(Hnd, Src, Slot, usize, Arc<AtomicUsize>, Arc<AtomicUsize>) -> SharedSubscription;
    macro_rules! t {
        ($e:expr) => {
            (|h, s, slot, k, n, td| {
                let (t2, t3) = (td.clone(), td);
                #[allow(clippy::redundant_closure_call)]
                let mut o = ($e)(h, s)
                    .finalize(move || {
                        t2.fetch_add(1, Ordering::SeqCst);
                    })
                    .tap_next(move |_| {
                        if n.fetch_add(1, Ordering::SeqCst) + 1 == k {
                            let s = lk(&slot).clone();
                            if let Some(mut s) = s {
                                s.unsubscribe()
                            }
                        }
                    });
                let mut s = SharedSubscription::new(o.subscribe(Out::default().obs()));
                s.add_fn(move || {
                    t3.fetch_add(100, Ordering::SeqCst);
                });
                s
            }) as Mk
        };
    }
    let all: Vec<(&str, usize, Mk)> = vec![
        ("interval", 3, t!(|h: Hnd, _: Src| interval(IntervalObservableOptions { duration: ms(10), start_on_subscribe: false, max_emissions_per_tick: 3 }, h).map_never::<i64>())),
        ("on every tick", 3, t!(|h: Hnd, _: Src| (0..100).into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: false, emit_at_every_nth_tick: 1 }, h).map_never::<i64>())),
        ("timer", 1, t!(|h: Hnd, _: Src| timer(ms(10), h).map_never::<i64>())),
        ("delay", 3, t!(|h: Hnd, s: Src| s.delay(ms(10), h))),
        ("debounce_time", 3, t!(|h: Hnd, s: Src| s.debounce_time(ms(5), h))),
        ("throttle_time", 3, t!(|h: Hnd, s: Src| s.throttle_time(ThrottleTimeOptions::new(ms(5)).with_output(ThrottleOutputBehavior::TrailingOnly), h))),
        ("fallback_when_silent", 3, t!(|h: Hnd, s: Src| s.fallback_when_silent(|_: Tick, _: &mut TCtx, n: usize| n as i64, h))),
    ];
    for (name, most, mk) in all {
        for k in 1..=most {
            c.case("unsubscribed within a delivery", &format!("{name} {k}"), || {
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || {
                    let mut ex = Exec::default();
                    let (slot, n, td): (Slot, Arc<AtomicUsize>, Arc<AtomicUsize>) = Default::default();
                    let mut src = Src::default();
                    let s = mk(ex.handle(), src.clone(), slot.clone(), k, n.clone(), td.clone());
                    *lk(&slot) = Some(s.clone());
                    let mut log = vec![];
                    for i in 0..k + 3 {
                        src.next(i as i64);
                        ex.tick(10);
                        log.push((n.load(Ordering::SeqCst), td.load(Ordering::SeqCst)));
                    }
                    let _ = tx.send((log, s.is_closed()));
                });
                let Ok((log, closed)) = rx.recv_timeout(Duration::from_secs(5)) else { return Err("never returns".into()) };
                let end = log.iter().position(|l| l.0 >= k).ok_or("the value it waits for never came")?;
                for (i, l) in log.iter().enumerate() {
                    ensure(l.0 <= k, &format!("delivered after the end: {log:?}"))?;
                    if i > end {
                        eq("teardowns", l.1, 101)?;
                    } else if i < end {
                        eq("teardowns before the end", l.1, 0)?;
                    }
                }
                eq("closed", closed, true)
            });
        }
    }
}
fn main() {
    main_with(|c| {
        within(c);
        let ops = [Op::Delay(10), Op::Debounce(10), Op::Leading(10), Op::Trailing(10), Op::Both(10), Op::Fallback];
        let zero = [Op::Delay(0), Op::Debounce(0), Op::Leading(0), Op::Trailing(0), Op::Both(0)];
        // every short history between ticks
        let alpha = [S::Do(A::N), S::T(4), S::T(10), S::T(13), S::Do(A::C), S::Do(A::E), S::U];
        let n = c.size(5, 6);
        for op in ops.iter().chain(&zero) {
            let k = if zero.contains(op) { n - 1 } else { n };
            for k in 1..=k {
                for s in seqs(&alpha, k) {
                    // something must be sent first, and there is one end at most
                    if s.iter().filter(|x| matches!(x, S::Do(A::C | A::E) | S::U)).count() > 1 {
                        continue;
                    }
                    check(c, "plain", &Prog { op: *op, early: vec![], steps: s, nested: vec![] });
                }
            }
        }
        // many values
        for op in ops.iter().chain(&zero) {
            for n in [20usize, 70, 300] {
                for end in [S::Do(A::C), S::Do(A::E), S::U, S::T(0)] {
                    for every in [1, 3, usize::MAX] {
                        let mut s: Vec<S> = (0..n).flat_map(|i| if i % every == every - 1 { vec![S::Do(A::N), S::T([0, 4, 10, 13][i % 4])] } else { vec![S::Do(A::N)] }).collect();
                        s.extend([end, S::T(4), S::T(10), S::T(13)]);
                        check(c, "many", &Prog { op: *op, early: vec![], steps: s, nested: vec![] });
                    }
                }
            }
        }
        for n in [20u64, 100, 400] {
            for (d, max) in [(1, 10), (1, 1000), (7, 10), (7, 3)] {
                let s: Vec<u64> = (0..n).map(|i| [0, 1, 7, 10, 35, 3][i as usize % 6]).chain([3 * n]).collect();
                c.case("interval", &format!("{d} {s:?} 9999 false {max} 100000"), || interval_case(d, false, max, 100_000, &s, 9999));
            }
        }
        // interval and timer
        let t = [0u64, 4, 10, 13, 35];
        for k in 1..=4 {
            for s in seqs(&t, k) {
                for unsub in [1, 2, 99] {
                    for d in [0, 7, 10] {
                        c.case("timer", &format!("{d} {s:?} {unsub}"), || timer_case(d, &s, unsub));
                        for start in [true, false] {
                            for (max, take) in [(0, 3), (1, 5), (2, 4), (10, 6), (10, 1)] {
                                c.case("interval", &format!("{d} {s:?} {unsub} {start} {max} {take}"), || interval_case(d, start, max, take, &s, unsub));
                            }
                        }
                    }
                }
            }
        }
        // random: sends from inside ticks and from inside emissions
        let mut r = c.rng("s12");
        for i in 0..c.rounds(40_000) {
            let z = r.chance(10);
            let op = *r.pick(if z { &zero } else { &ops[..] });
            let act = |r: &mut Rng| if r.chance(85) { A::N } else { *r.pick(&[A::E, A::C, A::C]) };
            let early = if i % 3 == 0 { vec![] } else { (0..r.below(4)).map(|_| (*r.pick(&[0, 3, 5, 10, 17, 20]), act(&mut r))).collect() };
            let nested = if i % 2 == 0 { vec![] } else { (0..r.below(3)).map(|_| (r.below(4), act(&mut r))).collect() };
            let steps = (0..2 + r.below(9))
                .map(|_| match r.below(20) {
                    0..=7 => S::T(*r.pick(&[0, 3, 5, 7, 10, 10, 13, 25])),
                    8..=15 => S::Do(if r.chance(93) { A::N } else { *r.pick(&[A::E, A::C]) }),
                    16 if r.chance(30) => S::U,
                    _ => S::At(*r.pick(&[0, 3, 5, 10, 17]), act(&mut r)),
                })
                .collect();
            let what = match (early.is_empty(), nested.is_empty()) {
                (true, true) => "plain",
                (false, true) => "in ticks",
                (true, false) => "nested",
                _ => "nested in ticks",
            };
            check(c, what, &Prog { op, early, steps, nested });
        }
    })
}
