//! observe_on and subscribe_on against queues of what is waiting
use vh::prelude::*;
use rx_core::prelude::*;
use vh::cat::{Exec, ms};

type IEv = Ev<i64, i64>;
type DynSub = Box<dyn SubscriptionLike + Send + Sync>;

#[derive(Clone, Debug)]
enum Op {
    Src(IEv),
    Tick,
    Unsub,
}
#[derive(Clone, Debug, Default)]
struct M {
    out: Vec<IEv>,
    wait: Vec<i64>,
    end: Option<IEv>,
    src_over: bool,
    over: bool,
    close_after: Option<usize>,
}
impl M {
    fn put(&mut self, e: IEv) {
        if self.over {
            return;
        }
        let t = e.term() || matches!(e, Ev::U);
        if !matches!(e, Ev::U) {
            self.out.push(e);
        }
        if t || self.close_after.is_some_and(|k| k <= self.out.len()) {
            self.over = true;
            self.wait.clear();
        }
    }
    fn src(&mut self, e: IEv) {
        if self.src_over || self.over {
            return;
        }
        match e {
            Ev::N(v) => self.wait.push(v),
            Ev::E(v) => {
                self.src_over = true;
                self.put(Ev::E(v))
            }
            e => {
                self.src_over = true;
                self.finish(e)
            }
        }
    }
    fn finish(&mut self, e: IEv) {
        if self.over || self.end.is_some() {
        } else if self.wait.is_empty() {
            self.put(e)
        } else {
            self.end = Some(e)
        }
    }
    fn tick(&mut self) {
        for v in std::mem::take(&mut self.wait) {
            self.put(Ev::N(v));
        }
        if let Some(e) = self.end.take() {
            self.put(e)
        }
    }
    fn unsub(&mut self) {
        if !self.src_over {
            self.src_over = true;
            self.finish(Ev::U)
        }
    }
}
/// a plain run, every step compared; the last one is checked with several subscriptions in parallel
fn observe(ks: &[Option<usize>], ops: &[(usize, Op)]) -> Result<(), String> {
    let mut ex = Exec::default();
    let s = Script::<i64, i64>::new();
    let mut o = s.clone().observe_on(ex.handle());
    let mut subs: Vec<DynSub> = vec![];
    let mut hs = vec![];
    let mut m: Vec<M> = vec![];
    for k in ks {
        let h = match k {
            Some(k) => RecH::closing_after(*k),
            None => RecH::new(),
        };
        subs.push(Box::new(o.subscribe(h.rec())));
        hs.push(h);
        m.push(M { close_after: *k, ..Default::default() });
    }
    for (j, (i, op)) in ops.iter().enumerate() {
        let i = i % ks.len();
        match op {
            Op::Src(e) => {
                m[i].src(e.clone());
                s.conn(i).offer(e.clone());
            }
            Op::Tick => {
                m.iter_mut().for_each(|m| m.tick());
                ex.tick((j as u64 * 5) % 16);
            }
            Op::Unsub => {
                m[i].unsub();
                subs[i].unsubscribe();
            }
        }
        for i in 0..ks.len() {
            eq(&format!("#{j} {op:?}: subscription {i}"), hs[i].sig(), m[i].out.clone())?;
            eq(&format!("#{j} {op:?}: closed {i}"), hs[i].closed(), m[i].over)?;
            ensure(hs[i].after_close().iter().all(|e| e.term()), "a value into a closed destination")?;
        }
    }
    ex.tick(1);
    for i in 0..ks.len() {
        m[i].tick();
        eq("at the end", hs[i].sig(), m[i].out.clone())?;
        subs[i].unsubscribe();
        ensure(hs[i].closed(), "open after unsubscribing")?;
    }
    drop(subs);
    ex.tick(1);
    ex.tick(1);
    ensure(ex.is_empty(), "work left behind")
}
/// the destination acts while it is delivered to: what it sends waits for a later turn
fn reacting(first: usize, at: usize, act: Vec<IEv>, unsub: bool) -> Result<(), String> {
    let mut ex = Exec::default();
    let s = Script::<i64, i64>::new();
    let mut o = s.clone().observe_on(ex.handle());
    let h = RecH::<i64, i64>::new();
    let sub: Arc<Mutex<Option<DynSub>>> = Arc::new(Mutex::new(None));
    let bad = Arc::new(Mutex::new(None::<String>));
    {
        let (s, a, sl, hh, bad) = (s.clone(), act.clone(), sub.clone(), h.clone(), bad.clone());
        let mut n = 0;
        h.set_hook(move |_, e| {
            if let Ev::N(_) = e {
                n += 1;
                if n == at {
                    for e in &a {
                        let before = hh.sig().len();
                        s.conn(0).offer(e.clone());
                        if matches!(e, Ev::N(_)) && hh.sig().len() != before {
                            *lk(&bad) = Some("delivered while it was being sent".into());
                        }
                    }
                    if unsub {
                        let t = lk(&sl).take();
                        if let Some(mut t) = t {
                            t.unsubscribe();
                        }
                    }
                }
            }
        });
    }
    let x = o.subscribe(h.rec());
    *lk(&sub) = Some(Box::new(x));
    let mut want: Vec<IEv> = vec![];
    for v in 0..first as i64 {
        s.conn(0).offer(Ev::N(v));
        want.push(Ev::N(v));
    }
    let mut open = true;
    if at <= first {
        for e in &act {
            if !open {
                break;
            }
            match e {
                Ev::N(v) => want.push(Ev::N(*v)),
                Ev::E(v) => {
                    want.truncate(at);
                    want.push(Ev::E(*v));
                    open = false;
                }
                Ev::C => {
                    want.push(Ev::C);
                    open = false;
                }
                Ev::U => open = false,
            }
        }
        if unsub {
            open = false
        }
    }
    for _ in 0..4 {
        ex.tick(1);
    }
    if let Some(b) = lk(&bad).take() {
        return Err(b);
    }
    eq("all of it, in order", h.sig(), want)?;
    eq("closed", h.closed(), !open)?;
    let t = lk(&sub).take();
    drop(t);
    ensure(h.closed(), "released")?;
    ex.tick(1);
    ensure(ex.is_empty(), "work left behind")
}

#[derive(Clone, Debug)]
enum Sop {
    Sub(Option<usize>),
    Unsub(usize),
    Drop(usize),
    Src(usize, IEv),
    Tick(u64),
}
fn subscribe_on(delay: u64, pre: &[Vec<IEv>], ops: &[Sop]) -> Result<(), String> {
    let mut ex = Exec::default();
    let s = Script::with_each(pre.to_vec());
    let mut o = s.clone().subscribe_on_with_delay(ms(delay), ex.handle());
    struct P {
        h: RecH<i64, i64>,
        sub: Option<DynSub>,
        m: M,
        due: u64,
        conn: Option<usize>,
    }
    let mut now = 0;
    let mut made = 0;
    let mut ps: Vec<P> = vec![];
    for (j, op) in ops.iter().enumerate() {
        match op {
            Sop::Sub(k) => {
                let h = match k {
                    Some(k) => RecH::closing_after(*k),
                    None => RecH::new(),
                };
                let sub: DynSub = Box::new(o.subscribe(h.rec()));
                ps.push(P { h, sub: Some(sub), m: M { close_after: *k, ..Default::default() }, due: now + delay, conn: None });
            }
            Sop::Unsub(i) => {
                if let Some(p) = ps.get_mut(*i) {
                    if let Some(t) = p.sub.as_mut() {
                        t.unsubscribe();
                        p.m.put(Ev::U);
                    }
                }
            }
            Sop::Drop(i) => {
                if let Some(p) = ps.get_mut(*i) {
                    if p.sub.take().is_some() {
                        p.m.put(Ev::U);
                    }
                }
            }
            Sop::Src(i, e) => {
                if let Some(p) = ps.get_mut(*i)
                    && let Some(c) = p.conn
                {
                    if !p.m.over {
                        p.m.put(e.clone());
                        s.conn(c).offer(e.clone());
                    }
                }
            }
            Sop::Tick(d) => {
                now += d;
                // by due time; all have the same delay, so in the order of subscribing
                for p in ps.iter_mut() {
                    if p.conn.is_none() && p.due <= now && !p.m.over {
                        p.conn = Some(made);
                        for e in pre.get(made).cloned().unwrap_or_default() {
                            p.m.put(e);
                        }
                        made += 1;
                    }
                }
                ex.tick(*d);
            }
        }
        eq(&format!("#{j} {op:?}: subscriptions made"), (&s).count(), made)?;
        for (i, p) in ps.iter().enumerate() {
            eq(&format!("#{j} {op:?}: subscriber {i}"), p.h.sig(), p.m.out.clone())?;
            eq(&format!("#{j} {op:?}: closed {i}"), p.h.closed(), p.m.over)?;
            ensure(p.h.after_close().iter().all(|e| e.term()), "a value into a closed destination")?;
            if let Some(c) = p.conn {
                eq(&format!("#{j} {op:?}: source of {i} released"), s.closed(c), p.m.over)?;
            }
            if let Some(t) = &p.sub {
                eq(&format!("#{j} {op:?}: subscription {i} closed"), t.is_closed(), p.m.over)?;
            }
        }
    }
    let over = ps.iter().all(|p| p.m.over || p.conn.is_some());
    drop(ps);
    ex.tick(0);
    ex.tick(0);
    ensure(ex.is_empty(), format!("work left behind, all made or over: {over}"))?;
    eq("nothing is left subscribed", s.live(), 0)
}
fn main() {
    main_with(|c| {
        let alpha = [Op::Src(Ev::N(1)), Op::Src(Ev::N(2)), Op::Src(Ev::E(9)), Op::Src(Ev::C), Op::Src(Ev::U), Op::Tick, Op::Unsub];
        for len in 0..=c.size(5, 6) {
            for q in seqs(&alpha, len) {
                let ops: Vec<(usize, Op)> = q.into_iter().map(|o| (0, o)).collect();
                c.case("observe_on: sequences", &format!("{ops:?}"), || observe(&[None], &ops));
                if len <= 4 {
                    c.case("observe_on: sequences", &format!("closing after 1: {ops:?}"), || observe(&[Some(1)], &ops));
                }
            }
        }
        let mut r = c.rng("observe");
        for _ in 0..c.rounds(6000) {
            let ks: Vec<Option<usize>> = (0..1 + r.below(3)).map(|_| if r.chance(60) { None } else { Some(1 + r.below(5)) }).collect();
            let mut v = 0;
            let ops: Vec<(usize, Op)> = (0..r.below(24)).map(|_| {
                v += 1;
                (r.below(3), match r.below(16) {
                    0..=8 => Op::Src(Ev::N(v)),
                    9 => Op::Src(if r.chance(50) { Ev::C } else { Ev::E(v) }),
                    10 => if r.chance(30) { Op::Unsub } else { Op::Src(Ev::N(-v)) },
                    _ => Op::Tick,
                })
            }).collect();
            c.case("observe_on: random", &format!("{ks:?} {ops:?}"), || observe(&ks, &ops));
        }
        for n in [20i64, 70, 300, 700] {
            for end in [Op::Src(Ev::C), Op::Src(Ev::E(9)), Op::Src(Ev::U), Op::Unsub] {
                for half in [false, true] {
                    let mut ops: Vec<(usize, Op)> = (0..n).map(|v| (0, Op::Src(Ev::N(v)))).collect();
                    if half {
                        ops.push((0, Op::Tick));
                        ops.extend((0..n).map(|v| (0, Op::Src(Ev::N(v + 1000)))));
                    }
                    ops.extend([(0, end.clone()), (0, Op::Tick), (0, Op::Tick)]);
                    c.case("observe_on: many values", &format!("{ops:?}"), || observe(&[None], &ops));
                }
            }
        }
        let acts = [Ev::N(10), Ev::N(11), Ev::E(9), Ev::C, Ev::U];
        for first in 0..=3 {
            for at in 1..=3 {
                for len in 0..=3 {
                    for a in seqs(&acts, len) {
                        for u in [false, true] {
                            c.case("observe_on: from within a delivery", &format!("{first} values, at {at} {a:?} unsubscribe={u}"), || reacting(first, at, a.clone(), u));
                        }
                    }
                }
            }
        }
        let mut r = c.rng("subscribe");
        for _ in 0..c.rounds(8000) {
            let g = |r: &mut Rng, n: usize| -> Vec<IEv> {
                let mut o = vec![];
                for _ in 0..r.below(n) {
                    let e = match r.below(12) {
                        0 => Ev::C,
                        1 => Ev::E(7),
                        2 => Ev::U,
                        x => Ev::N(x as i64),
                    };
                    let t = !matches!(e, Ev::N(_));
                    o.push(e);
                    if t { break }
                }
                o
            };
            let pre: Vec<Vec<IEv>> = (0..4).map(|_| g(&mut r, 4)).collect();
            let delay = *r.pick(&[0, 0, 1, 5, 10]);
            let ops: Vec<Sop> = (0..r.below(20)).map(|_| match r.below(12) {
                0..=2 => Sop::Sub(if r.chance(70) { None } else { Some(1 + r.below(3)) }),
                3 => Sop::Unsub(r.below(4)),
                4 => Sop::Drop(r.below(4)),
                5..=7 => Sop::Tick(*r.pick(&[0, 1, 4, 5, 10, 50])),
                _ => Sop::Src(r.below(4), match r.below(9) { 0 => Ev::C, 1 => Ev::E(3), 2 => Ev::U, x => Ev::N(x as i64) }),
            }).collect();
            c.case("subscribe_on", &format!("delay {delay} {pre:?} {ops:?}"), || subscribe_on(delay, &pre, &ops));
        }
    });
}
