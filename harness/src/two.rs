//! operators with two inputs: every interleaving of two scripted or subject sources
use crate::prelude::*;
use rx_core::prelude::*;

/// what happens, in order: side 0 / 1 sends, side 2 = the output's subscription is unsubscribed
pub type Step = (u8, IEv);
pub type Trace = Vec<Ev<String, i64>>;
#[derive(Clone, Debug)]
pub struct Case {
    pub pa: Vec<IEv>,
    pub pb: Vec<IEv>,
    pub ev: Vec<Step>,
    pub ca: Option<usize>,
    pub subjects: bool,
    /// the n-th value received makes the destination send this
    pub feed: Option<(usize, Step)>,
}
impl Case {
    pub fn of(ev: Vec<Step>) -> Self {
        Case { pa: vec![], pb: vec![], ev, ca: None, subjects: false, feed: None }
    }
}
pub trait Law {
    /// which side is subscribed to first
    fn first(&self) -> u8;
    fn step(&mut self, side: u8, e: &IEv) -> Trace;
}
/// the expected trace
pub fn expect(c: &Case, law: &mut dyn Law) -> (Trace, bool) {
    struct X<'a> {
        law: &'a mut dyn Law,
        out: Trace,
        closed: bool,
        ended: [bool; 2],
        nv: usize,
        c: Case,
    }
    impl X<'_> {
        fn give(&mut self, s: u8, e: &IEv) {
            if s == 2 {
                if !self.closed {
                    self.closed = true;
                    self.out.push(Ev::U);
                }
                return;
            }
            if self.closed || self.ended[s as usize] {
                return;
            }
            if e.term() {
                self.ended[s as usize] = true;
            }
            let mut feeds = vec![];
            for o in self.law.step(s, e) {
                if self.closed {
                    break;
                }
                let is_n = matches!(o, Ev::N(_));
                self.closed = o.term();
                self.out.push(o);
                if is_n {
                    if let Some((k, st)) = &self.c.feed {
                        if *k == self.nv {
                            feeds.push(st.clone());
                        }
                    }
                    self.nv += 1;
                }
                if self.c.ca == Some(self.out.len()) {
                    self.closed = true;
                }
            }
            for (s, e) in feeds {
                self.give(s, &e)
            }
        }
    }
    let f = law.first();
    let mut x = X { law, out: vec![], closed: false, ended: [false; 2], nv: 0, c: c.clone() };
    for s in [f, 1 - f] {
        for e in if s == 0 { &c.pa } else { &c.pb } {
            x.give(s, e)
        }
    }
    for (s, e) in &c.ev {
        x.give(*s, e)
    }
    (x.out, x.closed)
}
fn finish<O: Clone + std::fmt::Debug + Send + Sync + 'static>(h: &RecH<O, i64>) -> Trace {
    h.log()
        .into_iter()
        .map(|e| match e {
            Ev::N(x) => Ev::N(format!("{x:?}")),
            Ev::E(x) => Ev::E(x),
            Ev::C => Ev::C,
            Ev::U => Ev::U,
        })
        .collect()
}
pub fn check<O, Obs>(c: &Case, law: &mut dyn Law, build: impl Fn(Script<i64, i64>, Script<i64, i64>) -> Obs) -> Result<(), String>
where
    O: Signal + Clone + std::fmt::Debug,
    Obs: Observable<Out = O, OutError = i64>,
{
    let (want, closed) = expect(c, law);
    let (a, b) = (Script::with(c.pa.clone()), Script::with(c.pb.clone()));
    let h: RecH<O, i64> = match c.ca {
        Some(k) => RecH::closing_after(k),
        None => RecH::new(),
    };
    let mut obs = build(a.clone(), b.clone());
    let mut s = obs.subscribe(h.rec());
    for (side, e) in &c.ev {
        match side {
            0 => a.offer_all(e.clone()),
            1 => b.offer_all(e.clone()),
            _ => s.unsubscribe(),
        }
    }
    let ended = want.last().is_some_and(|e| e.term());
    eq("output", finish(&h), want)?;
    eq("closed", s.is_closed(), closed)?;
    ensure(h.after_close().iter().all(|e| e.term()), format!("values into a closed destination: {:?}", h.after_close()))?;
    if ended {
        ensure(a.live() == 0 && b.live() == 0, format!("an input is still subscribed after the end ({} {})", a.live(), b.live()))?;
    }
    Ok(())
}
/// the same with subjects: several subscriptions are independent, signals sent from inside a delivery
pub fn check_subjects<O, Obs>(c: &Case, law: &mut dyn Law, build: impl Fn(PublishSubject<i64, i64>, PublishSubject<i64, i64>) -> Obs) -> Result<(), String>
where
    O: Signal + Clone + std::fmt::Debug,
    Obs: Observable<Out = O, OutError = i64>,
{
    let (want, closed) = expect(c, law);
    let (mut a, mut b) = (PublishSubject::default(), PublishSubject::default());
    fn put(s: &mut PublishSubject<i64, i64>, e: Ev<i64, i64>) {
        if s.is_closed() {
            return;
        }
        match e {
            Ev::N(x) => s.next(x),
            Ev::E(x) => s.error(x),
            Ev::C => s.complete(),
            Ev::U => s.unsubscribe(),
        }
    }
    let h: RecH<O, i64> = match c.ca {
        Some(k) => RecH::closing_after(k),
        None => RecH::new(),
    };
    if let Some((k, (side, e))) = c.feed.clone() {
        let (mut a, mut b) = (a.clone(), b.clone());
        let mut n = 0;
        h.set_hook(move |_, x| {
            if let Ev::N(_) = x {
                if n == k {
                    put(if side == 0 { &mut a } else { &mut b }, e.clone());
                }
                n += 1;
            }
        });
    }
    let mut obs = build(a.clone(), b.clone());
    let mut s = obs.subscribe(h.rec());
    for (side, e) in &c.ev {
        match side {
            0 => put(&mut a, e.clone()),
            1 => put(&mut b, e.clone()),
            _ => s.unsubscribe(),
        }
    }
    eq("output", finish(&h), want)?;
    eq("closed", s.is_closed(), closed)
}
/// every arrangement of up to n signals of the two sides
pub fn arrangements(n: usize) -> Vec<Vec<Step>> {
    let al: Vec<u8> = (0..8).collect();
    let mut out = vec![];
    for s in seqs(&al, n) {
        let mut dead = [false; 2];
        let mut ok = true;
        let mut v = vec![];
        for (i, k) in s.iter().enumerate() {
            let side = k / 4;
            if dead[side as usize] {
                ok = false;
                break;
            }
            let x = (i as i64) + 10 * (side as i64 + 1);
            let e = match k % 4 {
                0 => Ev::N(x),
                1 => Ev::E(x),
                2 => Ev::C,
                _ => Ev::U,
            };
            dead[side as usize] = e.term();
            v.push((side, e));
        }
        if ok {
            out.push(v);
        }
    }
    out
}
pub fn random(r: &mut Rng, len: usize, feed: bool) -> Case {
    fn one(r: &mut Rng, i: usize, endy: usize) -> IEv {
        if r.chance(endy) {
            match r.below(5) {
                0 => Ev::E(i as i64 + 100),
                1 => Ev::U,
                _ => Ev::C,
            }
        } else {
            Ev::N(i as i64)
        }
    }
    let mut c = Case::of(vec![]);
    let endy = [2, 10, 25][r.below(3)];
    let mut i = 0;
    if !feed {
        for p in [&mut c.pa, &mut c.pb] {
            if r.chance(40) {
                for _ in 0..r.below(5) {
                    i += 1;
                    let e = one(r, i, 20);
                    let t = e.term();
                    p.push(e);
                    if t {
                        break;
                    }
                }
            }
        }
    }
    for _ in 0..r.below(len) + 1 {
        i += 1;
        if r.chance(2) {
            c.ev.push((2, Ev::U));
        } else {
            let e = one(r, i, endy);
            c.ev.push((r.below(2) as u8, e));
        }
    }
    if r.chance(25) {
        c.ca = Some(r.below(4) + 1);
    }
    if feed && r.chance(70) {
        c.feed = Some((r.below(4), (r.below(2) as u8, one(r, 777, 30))));
    }
    c.subjects = feed;
    c
}
