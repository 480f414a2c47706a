use rx_core::operator::*;
use rx_core::prelude::*;
use vh::prelude::*;

/// an observer that is cloneable and writes into a common order log
#[derive(Clone)]
struct TapObs {
    log: Arc<Mutex<Vec<String>>>,
}
impl ObserverInput for TapObs {
    type In = i64;
    type InError = i64;
}
impl RxObserver for TapObs {
    fn next(&mut self, n: i64) {
        lk(&self.log).push(format!("cb n{n}"))
    }
    fn error(&mut self, e: i64) {
        lk(&self.log).push(format!("cb e{e}"))
    }
    fn complete(&mut self) {
        lk(&self.log).push("cb c".into())
    }
}
impl WithPrimaryCategory for TapObs {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl UpgradeableObserver for TapObs {
    type Upgraded = ObserverSubscriber<Self>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
fn show(e: &IEv) -> String {
    match e {
        Ev::N(x) => format!("n{x}"),
        Ev::E(x) => format!("e{x}"),
        Ev::C => "c".into(),
        Ev::U => "u".into(),
    }
}
/// runs one input through `build` and returns the common order log of callbacks and deliveries
fn order<Obs: Observable<Out = i64, OutError = i64>>(inp: &[IEv], ca: Option<usize>, build: impl Fn(Script<i64, i64>, Arc<Mutex<Vec<String>>>) -> Obs) -> Vec<String> {
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let src = Script::new();
    let mut obs = build(src.clone(), log.clone());
    let h: RecH<i64, i64> = match ca {
        Some(k) => RecH::closing_after(k),
        None => RecH::new(),
    };
    let l2 = log.clone();
    h.set_hook(move |_, e| lk(&l2).push(show(e)));
    let mut s = obs.subscribe(h.rec());
    for e in inp {
        if let Ev::U = e {
            s.unsubscribe();
        } else {
            if s.is_closed() {
                break;
            }
            src.send(e.clone());
        }
    }
    drop(s);
    lk(&log).clone()
}
fn main() {
    main_with(|c| {
        let n = c.size(4, 6);
        let mut inp = inputs(&[0i64, 1, 2], n.min(4), 9i64);
        if n > 4 {
            inp.extend(inputs(&[0i64, 1], n, 9i64));
        }
        let mut r = c.rng("s05");
        let k = c.rounds(60);
        inp.extend(rand_inputs(&mut r, k, 12, -3, 6, 9i64));
        inp.extend(long_inputs(|i| (i as i64 * 31) % 1009, 9i64));
        let same = |ev: &[IEv]| -> Vec<IEv> { ev.to_vec() };
        check_unary(c, "tap is transparent", "", &inp, |s| s.tap(TapObs { log: Default::default() }), same);
        check_unary(c, "tap_next is transparent", "", &inp, |s| s.tap_next(|_: &i64| {}), same);
        check_unary(c, "on_next allowing everything is transparent", "", &inp, |s| s.on_next(|_: &i64, _| true), same);
        check_unary(c, "on_subscribe is transparent", "", &inp, |s| s.on_subscribe(|_| {}), same);
        check_unary(c, "finalize is transparent", "", &inp, |s| s.finalize(|| {}), same);
        check_unary(c, "identity is transparent", "", &inp, |s| IdentityOperator::default().operate(s), same);
        check_unary(c, "on_next vetoes", "even only", &inp, |s| s.on_next(|x: &i64, _| x % 2 == 0), |ev| {
            ev.iter().filter(|e| if let Ev::N(x) = e { x % 2 == 0 } else { true }).cloned().collect()
        });
        check_unary(c, "on_next may emit", "x>1: 100+x first; x<0: completes", &inp, |s| s.on_next(|x: &i64, d| {
            if *x > 1 {
                d.next(100 + x);
            }
            if *x < 0 {
                d.complete();
            }
            *x != 1
        }), |ev| {
            let mut o = vec![];
            for e in ev {
                if let Ev::N(x) = e {
                    if *x > 1 {
                        o.push(Ev::N(100 + x));
                    }
                    if *x < 0 {
                        o.push(Ev::C);
                        break;
                    }
                    if *x != 1 {
                        o.push(Ev::N(*x));
                    }
                } else {
                    o.push(e.clone());
                }
            }
            o
        });
        check_unary(c, "start_with", "77", &inp, |s| s.start_with(77i64), |ev| {
            let mut o = vec![Ev::N(77)];
            o.extend(ev.iter().cloned());
            o
        });
        check_unary(c, "end_with", "88", &inp, |s| s.end_with(88i64), |ev| {
            let mut o = vec![];
            for e in ev {
                if let Ev::C = e {
                    o.push(Ev::N(88));
                }
                o.push(e.clone());
            }
            o
        });
        // callbacks: exactly once per signal and before it is delivered
        let small = inputs(&[1i64, 2], 3, 9i64);
        for i in &small {
            for ca in [None, Some(1usize), Some(2)] {
                let d = format!("input={i:?} destination-closes-after={ca:?}");
                // what the destination sees of it (until it closes)
                let mut seen: Vec<IEv> = vec![];
                for e in i {
                    seen.push(e.clone());
                    if e.term() || ca == Some(seen.len()) {
                        break;
                    }
                }
                c.case("tap sees every signal once, before it is delivered", &d, || {
                    let got = order(i, ca, |s, log| s.tap(TapObs { log }));
                    let mut want = vec![];
                    for e in &seen {
                        if !matches!(e, Ev::U) {
                            want.push(format!("cb {}", show(e)));
                            want.push(show(e));
                        }
                    }
                    eq("order", got, want)
                });
                c.case("tap_next sees every value once, before it is delivered", &d, || {
                    let got = order(i, ca, |s, log| s.tap_next(move |x: &i64| lk(&log).push(format!("cb n{x}"))));
                    let mut want = vec![];
                    for e in &seen {
                        if let Ev::N(_) = e {
                            want.push(format!("cb {}", show(e)));
                        }
                        if !matches!(e, Ev::U) {
                            want.push(show(e));
                        }
                    }
                    eq("order", got, want)
                });
                c.case("on_next sees every value once, before it is delivered", &d, || {
                    let got = order(i, ca, |s, log| s.on_next(move |x: &i64, _| { lk(&log).push(format!("cb n{x}")); *x != 2 }));
                    let mut want = vec![];
                    let mut cnt = 0;
                    for e in i {
                        if matches!(e, Ev::U) {
                            break;
                        }
                        if let Ev::N(_) = e {
                            want.push(format!("cb {}", show(e)));
                        }
                        if *e != Ev::N(2) {
                            want.push(show(e));
                            cnt += 1;
                            if e.term() || ca == Some(cnt) {
                                break;
                            }
                        }
                    }
                    eq("order", got, want)
                });
                c.case("finalize runs once, after the end", &d, || {
                    let runs: Arc<Mutex<usize>> = Default::default();
                    let r2 = runs.clone();
                    let src: Script<i64, i64> = Script::new();
                    let mut obs = src.clone().finalize(move || *lk(&r2) += 1);
                    let h: RecH<i64, i64> = match ca {
                        Some(k) => RecH::closing_after(k),
                        None => RecH::new(),
                    };
                    let mut s = obs.subscribe(h.rec());
                    let mut ended = false;
                    eq("before anything", *lk(&runs), 0)?;
                    for (j, e) in i.iter().enumerate() {
                        if ended {
                            break;
                        }
                        if let Ev::U = e {
                            s.unsubscribe();
                        } else {
                            src.send(e.clone());
                        }
                        ended = e.term() || ca == Some(j + 1);
                        eq(&format!("runs after {e:?}"), *lk(&runs), ended as usize)?;
                    }
                    s.unsubscribe();
                    eq("runs after unsubscribe", *lk(&runs), 1)?;
                    drop(s);
                    eq("runs after drop", *lk(&runs), 1)
                });
            }
        }
        for subs in 1..=3usize {
            for sync in [false, true] {
                let d = format!("subscriptions={subs} sync={sync}");
                c.case("on_subscribe runs once per subscription, before the source", &d, || {
                    let log: Arc<Mutex<Vec<String>>> = Default::default();
                    let (l1, l2) = (log.clone(), log.clone());
                    let src: Script<i64, i64> = if sync { Script::with(vec![Ev::N(1), Ev::C]) } else { Script::new() };
                    let mut obs = src.clone().on_subscribe(move |d| { lk(&l1).push("sub".into()); d.next(50); });
                    let mut ss = vec![];
                    for _ in 0..subs {
                        let h: RecH<i64, i64> = RecH::new();
                        let l3 = l2.clone();
                        h.set_hook(move |_, e| lk(&l3).push(show(e)));
                        ss.push(obs.subscribe(h.rec()));
                    }
                    let mut want: Vec<String> = vec![];
                    for _ in 0..subs {
                        want.extend(["sub".to_string(), "n50".into()]);
                        if sync {
                            want.extend(["n1".to_string(), "c".into()]);
                        }
                    }
                    eq("order", lk(&log).clone(), want)
                });
                c.case("finalize, start_with and end_with act on every subscription", &d, || {
                    let runs: Arc<Mutex<usize>> = Default::default();
                    let r2 = runs.clone();
                    let src: Script<i64, i64> = if sync { Script::with(vec![Ev::N(1), Ev::C]) } else { Script::new() };
                    let mut obs = src.clone().start_with(7).end_with(8).finalize(move || *lk(&r2) += 1);
                    let mut ss = vec![];
                    for k in 0..subs {
                        let h: RecH<i64, i64> = RecH::new();
                        let s = obs.subscribe(h.rec());
                        if !sync {
                            src.send(Ev::N(1));
                            eq("running", *lk(&runs), k)?;
                            src.send(Ev::C);
                        }
                        eq("trace", h.sig(), vec![Ev::N(7), Ev::N(1), Ev::N(8), Ev::C])?;
                        eq("finalized", *lk(&runs), k + 1)?;
                        ss.push(s);
                    }
                    drop(ss);
                    eq("finalized in the end", *lk(&runs), subs)
                });
            }
        }
    })
}
