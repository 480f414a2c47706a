use rx_core::prelude::*;
use vh::prelude::*;

type N = ObserverNotification<i64, i64>;
fn to_n(e: &IEv) -> N {
    match e {
        Ev::N(x) => ObserverNotification::Next(*x),
        Ev::E(x) => ObserverNotification::Error(*x),
        _ => ObserverNotification::Complete,
    }
}
fn main() {
    main_with(|c| {
        let n = c.size(4, 6);
        let mut inp = inputs(&[0i64, 1, 2], n.min(4), 9i64);
        if n > 4 {
            inp.extend(inputs(&[0i64, 1], n, 9i64));
        }
        let mut r = c.rng("s04");
        let k = c.rounds(60);
        inp.extend(rand_inputs(&mut r, k, 12, -3, 6, 9i64));
        inp.extend(long_inputs(|i| (i as i64 * 31) % 1009, 9i64));
        check_unary(c, "materialize", "", &inp, |s| s.materialize(), |ev| -> Vec<Ev<N, Never>> {
            let mut o = vec![];
            for e in ev {
                match e {
                    Ev::N(_) => o.push(Ev::N(to_n(e))),
                    Ev::U => {
                        o.push(Ev::U);
                        break;
                    }
                    _ => {
                        o.push(Ev::N(to_n(e)));
                        o.push(Ev::C);
                        break;
                    }
                }
            }
            o
        });
        check_unary(c, "materialize then dematerialize", "", &inp, |s| s.materialize().dematerialize(), |ev| -> Vec<IEv> {
            let mut o: Vec<IEv> = nexts(ev).into_iter().map(Ev::N).collect();
            o.extend(end_of(ev));
            o
        });
        // every sequence of notifications, also after a terminal one
        let alpha: Vec<N> = vec![ObserverNotification::Next(1), ObserverNotification::Next(2), ObserverNotification::Error(5), ObserverNotification::Complete];
        let mut ninp: Vec<Vec<Ev<N, Never>>> = vec![];
        for s in seqs(&alpha, c.size(3, 5)) {
            for e in [None, Some(Ev::C), Some(Ev::U)] {
                let mut v: Vec<Ev<N, Never>> = s.iter().cloned().map(Ev::N).collect();
                v.extend(e);
                ninp.push(v);
            }
        }
        for i in long_inputs(|i| i as i64, 5i64) {
            ninp.push(i.iter().map(|e| Ev::N(match e { Ev::N(x) => ObserverNotification::Next(*x), Ev::E(e) => ObserverNotification::Error(*e), _ => ObserverNotification::Complete })).collect());
        }
        check_unary(c, "dematerialize", "", &ninp, |s| s.dematerialize(), |ev| -> Vec<IEv> {
            let mut o = vec![];
            for e in ev {
                let x = match e {
                    Ev::N(ObserverNotification::Next(x)) => Ev::N(*x),
                    Ev::N(ObserverNotification::Error(x)) => Ev::E(*x),
                    Ev::N(ObserverNotification::Complete) | Ev::C => Ev::C,
                    _ => Ev::U,
                };
                let t = x.term();
                o.push(x);
                if t {
                    break;
                }
            }
            o
        });
        check_unary(c, "into_result", "", &inp, |s| s.into_result(), |ev| -> Vec<Ev<Result<i64, i64>, Never>> {
            ev.iter().map(|e| match e { Ev::N(x) => Ev::N(Ok(*x)), Ev::E(x) => Ev::N(Err(*x)), Ev::C => Ev::C, Ev::U => Ev::U }).collect()
        });
        let ra: Vec<Result<i64, i64>> = vec![Ok(1), Ok(2), Err(5), Err(6)];
        let mut rinp: Vec<Vec<Ev<Result<i64, i64>, Never>>> = vec![];
        for s in seqs(&ra, c.size(3, 5)) {
            for e in [None, Some(Ev::C), Some(Ev::U)] {
                let mut v: Vec<Ev<Result<i64, i64>, Never>> = s.iter().cloned().map(Ev::N).collect();
                v.extend(e);
                rinp.push(v);
            }
        }
        for i in long_inputs(|i| i as i64, 5i64) {
            rinp.push(i.iter().map(|e| match e { Ev::N(x) => Ev::N(Ok(*x)), Ev::E(e) => Ev::N(Err(*e)), _ => Ev::C }).collect());
        }
        check_unary(c, "lift_result", "", &rinp, |s| s.lift_result(), |ev| -> Vec<IEv> {
            let mut o = vec![];
            for e in ev {
                let x = match e {
                    Ev::N(Ok(x)) => Ev::N(*x),
                    Ev::N(Err(x)) => Ev::E(*x),
                    Ev::C => Ev::C,
                    _ => Ev::U,
                };
                let t = x.term();
                o.push(x);
                if t {
                    break;
                }
            }
            o
        });
        check_unary(c, "into_result then lift_result", "", &inp, |s| s.into_result().lift_result(), |ev| -> Vec<IEv> {
            let mut o: Vec<IEv> = nexts(ev).into_iter().map(Ev::N).collect();
            o.extend(end_of(ev));
            o
        });
        check_unary(c, "map_error", "", &inp, |s| s.map_error(|e: i64| (e, "mapped")), |ev| -> Vec<Ev<i64, (i64, &'static str)>> {
            ev.iter().map(|e| match e { Ev::N(x) => Ev::N(*x), Ev::E(x) => Ev::E((*x, "mapped")), Ev::C => Ev::C, Ev::U => Ev::U }).collect()
        });
        // map_error may be subscribed to repeatedly, each subscription has its own mapper
        for k in 1..=3usize {
            c.case("map_error maps the error of every subscription", &format!("subscriptions={k}"), || {
                let src: Script<i64, i64> = Script::with(vec![Ev::N(1), Ev::E(4)]);
                let mut o = src.clone().map_error(|e: i64| e * 10);
                for _ in 0..k {
                    let h = RecH::<i64, i64>::new();
                    let s = o.subscribe(h.rec());
                    eq("trace", h.log(), vec![Ev::N(1), Ev::E(40)])?;
                    drop(s);
                }
                Ok(())
            });
        }
        let enever: Vec<Vec<Ev<i64, Never>>> = seqs(&[0i64, 1], 3)
            .into_iter()
            .flat_map(|s| {
                [None, Some(Ev::C), Some(Ev::U)].into_iter().map(move |e: Option<Ev<i64, Never>>| {
                    let mut v: Vec<Ev<i64, Never>> = s.iter().cloned().map(Ev::N).collect();
                    v.extend(e);
                    v
                })
            })
            .collect();
        check_unary(c, "error_boundary", "", &enever, |s| s.error_boundary(), |ev| ev.to_vec());
        // conversions between the notification types, and push
        for x in [0i64, 7] {
            for kind in 0..4usize {
                c.case("notification conversions keep the signal", &format!("kind={kind} x={x}"), || {
                    let s: SubscriberNotification<i64, i64> = match kind {
                        0 => SubscriberNotification::Next(x),
                        1 => SubscriberNotification::Error(x),
                        2 => SubscriberNotification::Complete,
                        _ => SubscriberNotification::Unsubscribe,
                    };
                    let o: Result<N, _> = s.clone().try_into();
                    let want = match kind {
                        0 => Some(ObserverNotification::Next(x)),
                        1 => Some(ObserverNotification::Error(x)),
                        2 => Some(ObserverNotification::Complete),
                        _ => None,
                    };
                    eq("try_into observer notification", o.ok(), want.clone())?;
                    if let Some(w) = want {
                        let back: SubscriberNotification<i64, i64> = w.clone().into();
                        eq("back to subscriber notification", back, s.clone())?;
                        let h = RecH::<i64, i64>::new();
                        let mut rec = h.rec();
                        ObserverPushObserverNotificationExtention::push(&mut rec, w);
                        eq("pushed", h.log(), vec![match kind { 0 => Ev::N(x), 1 => Ev::E(x), _ => Ev::C }])?;
                    }
                    let h = RecH::<i64, i64>::new();
                    let mut rec = h.rec();
                    SubscriberPushNotificationExtention::push(&mut rec, s);
                    eq("pushed as subscriber notification", h.log(), vec![match kind { 0 => Ev::N(x), 1 => Ev::E(x), 2 => Ev::C, _ => Ev::U }])?;
                    Ok(())
                });
            }
        }
    })
}
