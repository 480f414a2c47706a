//! The envelope operator: every envelope, gate history and tick length, against the phase that
//! the time since the activation and since the release dictate.
use rx_core::prelude::*;
use std::time::Duration;
use vh::cat::{Exec, ms};
use vh::prelude::*;

/// milliseconds; u64::MAX stands for the longest duration
fn dur(n: u64) -> Duration {
    if n == u64::MAX { Duration::MAX } else { ms(n) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Env {
    a: u64,
    d: u64,
    s: f32,
    r: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Chg {
    a: Option<u64>,
    d: Option<u64>,
    s: Option<f32>,
    r: Option<u64>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    /// trigger of one subscription
    G(usize, bool, Option<Chg>),
    T(u64),
    E(usize),
    C(usize),
    U(usize),
}
#[derive(Clone, Debug)]
struct Prog {
    env: Env,
    none: bool,
    reset: bool,
    /// ticks before the subscription
    early: u64,
    subs: usize,
    steps: Vec<S>,
    /// triggers sent from inside the n-th emission of subscription 0
    nested: Vec<(usize, Nest)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    None,
    A,
    D,
    S,
    R,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Nest {
    G(bool),
    C,
    E,
}
/// what one emission has to be
#[derive(Clone, Debug)]
struct W {
    p: P,
    tr: AdsrEnvelopePhaseTransition,
    t: Duration,
    v: f32,
}
fn trans(f: P, t: P) -> AdsrEnvelopePhaseTransition {
    use AdsrEnvelopePhaseTransition as X;
    let enter = |p| match p {
        P::A => X::Start,
        P::D => X::Fire,
        P::S => X::Sustain,
        P::R => X::Release,
        P::None => X::Stop,
    };
    let order = [P::None, P::A, P::D, P::S, P::R];
    let ix = |p| order.iter().position(|q| *q == p).unwrap();
    let (i, j) = (ix(f), ix(t));
    if i == j {
        X::empty()
    } else if t == P::None {
        X::Stop
    } else if j < i {
        X::Stop | X::Restart
    } else {
        // sustaining is the only phase that can be left out
        order[i + 1..=j].iter().filter(|p| **p != P::S || t == P::S).fold(X::empty(), |a, p| a | enter(*p))
    }
}
struct M {
    env: Env,
    none: bool,
    reset: bool,
    gate: bool,
    seen: bool,
    /// time of the tick that saw the gate go on, time between it and the last tick before the release
    on: Option<Duration>,
    off: Option<Duration>,
    off_v: f32,
    prev: (P, f32, Duration),
    told_none: bool,
    open: bool,
    want: Vec<Ev<W, u8>>,
}
impl M {
    fn trigger(&mut self, g: bool, c: Option<Chg>) {
        self.gate = g;
        if let Some(c) = c {
            self.env = Env { a: c.a.unwrap_or(self.env.a), d: c.d.unwrap_or(self.env.d), s: c.s.unwrap_or(self.env.s), r: c.r.unwrap_or(self.env.r) };
        }
    }
    fn tick(&mut self, now: Duration) -> bool {
        if !self.open {
            return false;
        }
        match (self.seen, self.gate) {
            (false, true) => {
                self.on = Some(now);
                self.off = None;
            }
            (true, false) => {
                self.off = Some(self.prev.2);
                self.off_v = self.prev.1;
            }
            _ => {}
        }
        self.seen = self.gate;
        let frac = |t: Duration, from: Duration, len: Duration| ((t - from).as_secs_f64() / len.as_secs_f64()) as f32;
        let e = self.env;
        let sus = e.s.clamp(0.0, 1.0);
        let (mut p, mut v, mut t) = (P::None, 0.0, Duration::ZERO);
        if let Some(on) = self.on {
            t = now - on;
            let (a, d, r) = (dur(e.a), dur(e.d), dur(e.r));
            (p, v) = match self.off {
                Some(off) if t < off.saturating_add(r) => (P::R, self.off_v * (1.0 - frac(t, off, off.saturating_add(r) - off))),
                Some(_) => (P::None, 0.0),
                None if t < a => (P::A, frac(t, Duration::ZERO, a)),
                None if t < a.saturating_add(d) => (P::D, 1.0 + (sus - 1.0) * frac(t, a, a.saturating_add(d) - a)),
                None => (P::S, sus),
            };
        }
        if p == P::None {
            (t, self.on, self.off) = (Duration::ZERO, None, None);
        }
        let tr = trans(self.prev.0, p);
        self.prev = (p, v, t);
        if self.reset {
            self.gate = false;
        }
        let say = self.none || p != P::None || !self.told_none;
        self.told_none = p == P::None;
        if say {
            self.want.push(Ev::N(W { p, tr, t, v }));
        }
        say
    }
}
fn phase(p: P) -> AdsrEnvelopePhase {
    match p {
        P::None => AdsrEnvelopePhase::None,
        P::A => AdsrEnvelopePhase::Attack,
        P::D => AdsrEnvelopePhase::Decay,
        P::S => AdsrEnvelopePhase::Sustain,
        P::R => AdsrEnvelopePhase::Release,
    }
}
fn same(got: &[Ev<AdsrSignal, u8>], want: &[Ev<W, u8>]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match (g, w) {
            (Ev::N(g), Ev::N(w)) => g.adsr_envelope_phase == phase(w.p) && g.phase_transition == w.tr && g.t == w.t && (g.value - w.v).abs() < 1e-3,
            (Ev::E(a), Ev::E(b)) => a == b,
            (Ev::C, Ev::C) => true,
            _ => false,
        })
}
fn run(p: &Prog) -> Result<(), String> {
    let mut ex = Exec::default();
    let mut now = Duration::ZERO;
    if p.early > 0 {
        ex.tick(p.early);
        now += ms(p.early);
    }
    let script = Script::<AdsrTrigger, u8>::new();
    let env = AdsrEnvelope { attack_time: dur(p.env.a), decay_time: dur(p.env.d), sustain_volume: p.env.s, release_time: dur(p.env.r), ..Default::default() };
    let mut o = script.clone().adsr(AdsrOperatorOptions { always_emit_none: p.none, reset_input_on_tick: p.reset, envelope: env }, ex.handle());
    let (mut hs, mut subs, mut ms_) = (vec![], vec![], vec![]);
    for i in 0..p.subs {
        let h = RecH::<AdsrSignal, u8>::new();
        if i == 0 && !p.nested.is_empty() {
            let (n, s) = (p.nested.clone(), script.clone());
            let mut k = 0;
            h.set_hook(move |_, e| {
                if matches!(e, Ev::N(_)) {
                    k += 1;
                    for (at, g) in &n {
                        if *at == k {
                            s.conn(0).offer(match g {
                            Nest::G(g) => Ev::N(AdsrTrigger::from(*g)),
                            Nest::C => Ev::C,
                            Nest::E => Ev::E(7),
                        });
                        }
                    }
                }
            });
        }
        subs.push(o.subscribe(h.rec()));
        hs.push(h);
        ms_.push(M {
            env: p.env,
            none: p.none,
            reset: p.reset,
            gate: false,
            seen: false,
            on: None,
            off: None,
            off_v: 0.0,
            prev: (P::None, 0.0, Duration::ZERO),
            told_none: false,
            open: true,
            want: vec![],
        });
    }
    for (k, s) in p.steps.iter().enumerate() {
        match s {
            S::G(i, g, c) => {
                let ch = c.map(|c| AdsrEnvelopeChange { attack_time: c.a.map(dur), decay_time: c.d.map(dur), sustain_volume: c.s, release_time: c.r.map(dur), ..Default::default() });
                script.conn(*i).offer(Ev::N(AdsrTrigger { activated: *g, envelope_changes: ch }));
                if ms_[*i].open {
                    ms_[*i].trigger(*g, *c);
                }
            }
            S::T(t) => {
                ex.tick(*t);
                now += ms(*t);
                for (i, m) in ms_.iter_mut().enumerate() {
                    if m.tick(now) && i == 0 {
                        let n = m.want.iter().filter(|e| matches!(e, Ev::N(_))).count();
                        for (_, g) in p.nested.iter().filter(|x| x.0 == n) {
                            match g {
                                _ if !m.open => {}
                                Nest::G(g) => m.trigger(*g, None),
                                _ => {
                                    m.open = false;
                                    m.want.push(if *g == Nest::C { Ev::C } else { Ev::E(7) });
                                }
                            }
                        }
                    }
                }
            }
            S::E(i) | S::C(i) => {
                let err = matches!(s, S::E(_));
                script.conn(*i).offer(if err { Ev::E(7) } else { Ev::C });
                if ms_[*i].open {
                    ms_[*i].open = false;
                    ms_[*i].want.push(if err { Ev::E(7) } else { Ev::C });
                }
            }
            S::U(i) => {
                subs[*i].unsubscribe();
                ms_[*i].open = false;
            }
        }
        for (i, m) in ms_.iter().enumerate() {
            let got = hs[i].sig();
            ensure(same(&got, &m.want), format!("subscription {i} after step {k}: got {got:?}, has to be {:?}", m.want))?;
            ensure(hs[i].after_close().is_empty(), "signal after the end")?;
            eq("closed", subs[i].is_closed(), !m.open)?;
        }
    }
    Ok(())
}
fn check(c: &mut Ctx, what: &str, p: &Prog) {
    c.case(what, &format!("{p:?}"), || run(p));
}

fn main() {
    main_with(|c| {
        c.case("flags", "all", || {
            use AdsrEnvelopePhaseTransition as X;
            let f = [X::Start, X::Fire, X::Sustain, X::Release, X::Stop, X::Restart];
            for (i, a) in f.iter().enumerate() {
                ensure(!a.is_empty() && f.iter().enumerate().all(|(j, b)| i == j || !a.intersects(*b)), format!("{a:?} is a flag of its own"))?;
            }
            Ok(())
        });
        // every change of phase
        use AdsrEnvelopePhase as Q;
        let all = [P::None, P::A, P::D, P::S, P::R];
        let _ = Q::None;
        for f in all {
            for t in all {
                c.case("transition", &format!("{f:?} {t:?}"), || eq("transition", determine_phase_transition(phase(f), phase(t)), trans(f, t)));
            }
        }
        // every short gate history
        let g = |b| S::G(0, b, None);
        let alpha = [g(true), g(false), S::T(0), S::T(5), S::T(10), S::T(25)];
        let envs = [(10, 10, 10), (0, 10, 10), (10, 0, 10), (10, 10, 0), (0, 0, 10), (0, 0, 0), (20, 5, 30)];
        for (a, d, r) in envs {
            for n in 1..=c.size(4, 5) {
                for steps in seqs(&alpha, n) {
                    // a gate change that nothing looks at
                    if !matches!(steps.last(), Some(S::T(_))) {
                        continue;
                    }
                    check(c, "short", &Prog { env: Env { a, d, s: 0.5, r }, none: false, reset: n % 2 == 0 && a == 20, early: 0, subs: 1, steps, nested: vec![] });
                }
            }
        }
        let mut r = c.rng("s22");
        for i in 0..c.rounds(40_000) {
            let len = |r: &mut Rng| *r.pick(&[0u64, 0, 1, 5, 10, 10, 20, 33, 100, u64::MAX]);
            let vol = |r: &mut Rng| *r.pick(&[0.0f32, 0.25, 0.5, 1.0, 1.5, -1.0]);
            let env = Env { a: len(&mut r), d: len(&mut r), s: vol(&mut r), r: len(&mut r) };
            let change = i % 4 == 3;
            let subs = 1 + (i % 5 == 4) as usize;
            let steps = (0..3 + r.below(14))
                .map(|_| {
                    let s = r.below(subs);
                    match r.below(40) {
                        0..=15 => {
                            let c = if change && r.chance(40) {
                                let o = |r: &mut Rng| if r.chance(50) { Some(len(r)) } else { None };
                                Some(Chg { a: o(&mut r), d: o(&mut r), s: if r.chance(50) { Some(vol(&mut r)) } else { None }, r: o(&mut r) })
                            } else {
                                None
                            };
                            S::G(s, r.chance(55), c)
                        }
                        16..=37 => S::T(*r.pick(&[0, 1, 3, 5, 5, 10, 17, 40])),
                        38 => *r.pick(&[S::E(s), S::C(s)]),
                        _ => S::U(s),
                    }
                })
                .collect();
            let nested = if i % 6 == 1 { (0..1 + r.below(3)).map(|_| (1 + r.below(5), *r.pick(&[Nest::G(true), Nest::G(true), Nest::G(false), Nest::G(false), Nest::C, Nest::E]))).collect() } else { vec![] };
            let what = if !nested.is_empty() {
                "nested"
            } else if change {
                "changing envelope"
            } else {
                "random"
            };
            check(c, what, &Prog { env, none: i % 3 == 0, reset: i % 7 < 2, early: if i % 2 == 0 { 0 } else { 13 }, subs, steps, nested });
        }
    })
}
