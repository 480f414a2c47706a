//! operators with inner sources: every interleaving of outer and inner signals
use crate::prelude::*;
use rx_core::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Merge(usize),
    Concat,
    Switch,
    Exhaust,
}
/// which form of the operator
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Map,
    All,
    /// three sources given at once
    Obs,
}
/// 0 = the outer source, i + 1 = inner source i, 99 = the output's subscription is unsubscribed
pub type Step = (usize, IEv);
#[derive(Clone, Debug)]
pub struct Case {
    /// signals of the outer source while it is subscribed to
    pub po: Vec<IEv>,
    /// the same for the inner sources
    pub pi: Vec<Vec<IEv>>,
    pub ev: Vec<Step>,
    pub ca: Option<usize>,
    pub feed: Option<(usize, Step)>,
}
impl Case {
    pub fn of(ev: Vec<Step>) -> Self {
        Case { po: vec![], pi: vec![], ev, ca: None, feed: None }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Away,
    Waiting,
    Active,
    Gone,
}
pub const N: usize = 8;
struct O<'a> {
    k: Kind,
    c: &'a Case,
    st: [St; N],
    subs: [usize; N],
    queue: std::collections::VecDeque<usize>,
    outer_open: bool,
    out: Vec<IEv>,
    closed: bool,
    /// an inner source left without completing: the output may end either way
    left: bool,
    nv: usize,
    /// sources in the middle of sending a signal: they send nothing else meanwhile
    busy: [bool; N + 1],
}
impl O<'_> {
    fn active(&self) -> usize {
        self.st.iter().filter(|s| **s == St::Active).count()
    }
    fn end(&mut self, e: IEv) {
        self.out.push(e);
        self.close()
    }
    fn close(&mut self) {
        self.closed = true;
        self.queue.clear();
        for s in &mut self.st {
            *s = St::Gone
        }
    }
    fn done(&mut self) {
        if !self.closed && !self.outer_open && self.active() == 0 && self.queue.is_empty() {
            self.end(Ev::C)
        }
    }
    fn subscribe(&mut self, i: usize) {
        self.st[i] = St::Active;
        self.subs[i] += 1;
        for e in self.c.pi.get(i).cloned().unwrap_or_default() {
            if self.closed || self.st[i] != St::Active {
                return;
            }
            self.give(i + 1, &e)
        }
    }
    fn give(&mut self, w: usize, e: &IEv) {
        if w != 99 && self.busy[w] {
            return;
        }
        if w == 99 {
            if !self.closed {
                self.end(Ev::U)
            }
            return;
        }
        self.busy[w] = true;
        self.give2(w, e);
        self.busy[w] = false;
    }
    fn give2(&mut self, w: usize, e: &IEv) {
        if self.closed {
            return;
        }
        if w == 0 {
            if !self.outer_open {
                return;
            }
            match e {
                Ev::N(i) => {
                    let i = *i as usize;
                    match self.k {
                        Kind::Merge(_) | Kind::Concat => {
                            let l = if let Kind::Merge(l) = self.k { l.max(1) } else { 1 };
                            if self.active() < l {
                                self.subscribe(i)
                            } else {
                                self.st[i] = St::Waiting;
                                self.queue.push_back(i)
                            }
                        }
                        Kind::Switch => {
                            for s in &mut self.st {
                                if *s == St::Active {
                                    *s = St::Gone
                                }
                            }
                            self.left = false;
                            self.subscribe(i)
                        }
                        Kind::Exhaust => {
                            if self.active() == 0 {
                                self.left = false;
                                self.subscribe(i)
                            } else {
                                self.st[i] = St::Gone
                            }
                        }
                    }
                }
                Ev::C => {
                    self.outer_open = false;
                    self.done()
                }
                Ev::E(x) => self.end(Ev::E(*x)),
                Ev::U => self.end(Ev::U),
            }
            return;
        }
        let i = w - 1;
        if self.st[i] != St::Active {
            return;
        }
        match e {
            Ev::N(x) => {
                self.out.push(Ev::N(*x));
                let n = self.nv;
                self.nv += 1;
                if self.c.ca == Some(self.nv) {
                    self.close();
                }
                if let Some((k, (w, e))) = self.c.feed.clone() {
                    if k == n {
                        self.give(w, &e)
                    }
                }
            }
            Ev::E(x) => self.end(Ev::E(*x)),
            Ev::C | Ev::U => {
                self.st[i] = St::Gone;
                if *e == Ev::U {
                    self.left = true
                }
                if let Some(j) = self.queue.pop_front() {
                    self.subscribe(j)
                }
                self.done()
            }
        }
    }
}
pub fn run(k: Kind, f: Form, c: &Case) -> Result<(), String> {
    let inner: Vec<Script<i64, i64>> = (0..N).map(|i| Script::with(c.pi.get(i).cloned().unwrap_or_default())).collect();
    let outer: Script<i64, i64> = Script::with(c.po.clone());
    let (i2, o2) = (inner.clone(), outer.clone());
    let pick = move |i: i64| i2[i as usize].clone();
    let id = |e: i64| e;
    match (k, f) {
        (Kind::Merge(l), Form::Map) => go(k, c, &inner, &outer, o2.merge_map(pick, l, id)),
        (Kind::Merge(l), Form::All) => go(k, c, &inner, &outer, o2.map(pick).merge_all(l, id)),
        (Kind::Concat, Form::Map) => go(k, c, &inner, &outer, o2.concat_map(pick, id)),
        (Kind::Concat, Form::All) => go(k, c, &inner, &outer, o2.map(pick).concat_all(id)),
        (Kind::Switch, Form::Map) => go(k, c, &inner, &outer, o2.switch_map(pick, id)),
        (Kind::Switch, _) => go(k, c, &inner, &outer, o2.map(pick).switch_all(id)),
        (Kind::Exhaust, Form::Map) => go(k, c, &inner, &outer, o2.exhaust_map(pick, id)),
        (Kind::Exhaust, _) => go(k, c, &inner, &outer, o2.map(pick).exhaust_all(id)),
        (Kind::Merge(l), Form::Obs) => go(k, c, &inner, &outer, merge((inner[0].clone(), inner[1].clone(), inner[2].clone()), l)),
        (Kind::Concat, Form::Obs) => go(k, c, &inner, &outer, concat((inner[0].clone(), inner[1].clone(), inner[2].clone()))),
    }
}
fn put(inner: &[Script<i64, i64>], outer: &Script<i64, i64>, w: usize, e: &IEv) {
    if w == 0 {
        outer.offer_all(e.clone())
    } else if w <= N {
        inner[w - 1].offer_all(e.clone())
    }
}
fn go<Obs>(k: Kind, c: &Case, inner: &[Script<i64, i64>], outer: &Script<i64, i64>, mut obs: Obs) -> Result<(), String>
where
    Obs: Observable<Out = i64, OutError = i64>,
{
    let mut o = O { k, c, st: [St::Away; N], subs: [0; N], queue: Default::default(), outer_open: true, out: vec![], closed: false, left: false, nv: 0, busy: [false; N + 1] };
    let h: RecH<i64, i64> = match c.ca {
        Some(n) => RecH::closing_after(n),
        None => RecH::new(),
    };
    if let Some((n, (w, e))) = c.feed.clone() {
        let (inner, outer) = (inner.to_vec(), outer.clone());
        let mut at = 0;
        h.set_hook(move |_, x| {
            if let Ev::N(_) = x {
                if at == n {
                    put(&inner, &outer, w, &e)
                }
                at += 1;
            }
        });
    }
    let look = |o: &O, closed: bool, at: &str| -> Result<(), String> {
        let (got, mut want) = (h.log(), o.out.clone());
        if o.left && got.last() == Some(&Ev::U) && want.last() == Some(&Ev::C) {
            *want.last_mut().unwrap() = Ev::U;
        }
        eq(&format!("output {at}"), got, want)?;
        let subs: Vec<usize> = inner.iter().map(|s| s.count()).collect();
        eq(&format!("subscriptions {at}"), subs, o.subs.to_vec())?;
        eq(&format!("closed {at}"), closed, o.closed)?;
        if c.ca.is_none() || o.out.last().is_some_and(|e| e.term()) {
            let live: Vec<usize> = inner.iter().map(|s| s.live()).collect();
            eq(&format!("active {at}"), live, o.st.iter().map(|s| (*s == St::Active) as usize).collect::<Vec<_>>())?;
            if o.closed {
                eq(&format!("outer still subscribed to {at}"), outer.live(), 0)?;
            }
        }
        // a value sent from inside the delivery that closes the destination is left to the destination
        ensure(c.feed.is_some() || h.after_close().iter().all(|e| e.term()), format!("values into a closed destination: {:?}", h.after_close()))
    };
    let mut s = obs.subscribe(h.rec());
    for e in &c.po {
        o.give(0, e)
    }
    look(&o, s.is_closed(), "on subscribe")?;
    for (i, (w, e)) in c.ev.iter().enumerate() {
        if *w == 99 {
            s.unsubscribe()
        } else {
            put(inner, outer, *w, e)
        }
        o.give(*w, e);
        look(&o, s.is_closed(), &format!("after step {i}"))?;
    }
    Ok(())
}
/// every arrangement of up to n signals with up to m inner sources
pub fn arrangements(n: usize, m: usize, started: usize) -> Vec<Vec<Step>> {
    fn rec(n: usize, m: usize, sent: usize, outer: bool, dead: &mut Vec<bool>, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        out.push(cur.clone());
        if n == 0 {
            return;
        }
        let mut go = |s: Step, sent: usize, outer: bool, kill: Option<usize>, stop: bool, dead: &mut Vec<bool>, cur: &mut Vec<Step>| {
            cur.push(s);
            if let Some(i) = kill {
                dead[i] = true
            }
            rec(if stop { 0 } else { n - 1 }, m, sent, outer, dead, cur, out);
            if let Some(i) = kill {
                dead[i] = false
            }
            cur.pop();
        };
        if outer {
            if sent < m {
                go((0, Ev::N(sent as i64)), sent + 1, true, None, false, dead, cur);
            }
            go((0, Ev::C), sent, false, None, false, dead, cur);
            go((0, Ev::E(50)), sent, false, None, true, dead, cur);
            go((0, Ev::U), sent, false, None, true, dead, cur);
        }
        if sent > 0 {
            go((99, Ev::U), sent, outer, None, true, dead, cur);
        }
        let at = cur.len() as i64;
        for i in 0..sent {
            if dead[i] {
                continue;
            }
            go((i + 1, Ev::N(100 * (i as i64 + 1) + at)), sent, outer, None, false, dead, cur);
            go((i + 1, Ev::C), sent, outer, Some(i), false, dead, cur);
            go((i + 1, Ev::E(60 + i as i64)), sent, outer, Some(i), true, dead, cur);
            go((i + 1, Ev::U), sent, outer, Some(i), false, dead, cur);
        }
    }
    let mut out = vec![];
    rec(n, m, started, started == 0, &mut vec![false; N], &mut vec![], &mut out);
    out
}
pub fn random(r: &mut Rng, len: usize, obs: bool, feed: bool) -> Case {
    let mut c = Case::of(vec![]);
    let pend = [5, 15, 40][r.below(3)];
    let bad = r.chance(40);
    let end = |r: &mut Rng| if bad && r.chance(30) { if r.chance(50) { Ev::U } else { Ev::E(70) } } else { Ev::C };
    let mut v = 100;
    let sync = [0, 20, 60][r.below(3)];
    for _ in 0..N {
        let mut p = vec![];
        if r.chance(sync) {
            for _ in 0..r.below(4) {
                v += 1;
                p.push(Ev::N(v));
            }
            if r.chance(40) {
                p.push(end(r));
            }
        }
        c.pi.push(p)
    }
    let mut sent = 0;
    let mut outer = true;
    if obs {
        c.po = vec![Ev::N(0), Ev::N(1), Ev::N(2), Ev::C];
        sent = 3;
        outer = false;
    } else if r.chance(30) {
        for _ in 0..r.below(4) {
            c.po.push(Ev::N(sent));
            sent += 1;
        }
        if r.chance(20) {
            c.po.push(end(r));
            outer = false
        }
    }
    for _ in 0..r.below(len) + 1 {
        if outer && (sent == 0 || r.chance(30)) {
            if (sent as usize) < N - 1 && r.chance(80) {
                c.ev.push((0, Ev::N(sent)));
                sent += 1;
            } else {
                c.ev.push((0, end(r)));
                outer = false;
            }
        } else if r.chance(1) {
            c.ev.push((99, Ev::U))
        } else if sent > 0 {
            let w = r.below(sent as usize) + 1;
            v += 1;
            let e = if r.chance(pend) { end(r) } else { Ev::N(v) };
            c.ev.push((w, e));
        }
    }
    if r.chance(15) {
        c.ca = Some(r.below(4) + 1);
    }
    if feed && c.ca.is_none() && sent > 0 {
        let w = r.below(sent as usize + 1);
        let e = if w == 0 { if r.chance(60) { Ev::N(N as i64 - 1) } else { end(r) } } else if r.chance(40) { end(r) } else { Ev::N(999) };
        c.feed = Some((r.below(4), (w, e)));
    }
    c
}
