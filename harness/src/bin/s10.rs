//! Behavior, replay, async and provenance subjects under every history of calls, also from inside
//! callbacks and teardowns.
use rx_core::prelude::*;
use vh::prelude::*;
use vh::subj::{programs, run, Beh, Last, Mix, Prog, Rep, Sj, A};

type PS = ProvenanceSubject<u8, i64, i64>;
#[derive(Clone, Debug, PartialEq)]
enum P {
    N(u8),
    E,
    C,
    X,
    /// subscribe: directly, all(), only_by(p), replay_then_by(p)
    Direct,
    All,
    Only(u8),
    Replay(u8),
}
fn provenance(calls: &[P]) -> Result<(), String> {
    let mut s = PS::new(100, 1);
    let (mut latest, mut end, mut gone) = ((100i64, 1u8), None::<IEv>, false);
    let mut subs: Vec<(P, RecH<i64, i64>, Vec<IEv>, Box<dyn std::any::Any>)> = vec![];
    for (i, a) in calls.iter().enumerate() {
        let i = i as i64;
        let passes = |k: &P, v: (i64, u8), first: bool| match k {
            P::Only(p) => v.1 == *p,
            P::Replay(p) => first || v.1 == *p,
            _ => true,
        };
        let open = end.is_none() && !gone;
        match a {
            P::N(p) => {
                s.next((i, *p));
                if open {
                    latest = (i, *p);
                    for (k, _, want, _) in subs.iter_mut() {
                        if passes(k, latest, false) {
                            want.push(Ev::N(i));
                        }
                    }
                }
            }
            P::E | P::C => {
                let e = if *a == P::E { Ev::E(i) } else { Ev::C };
                if *a == P::E {
                    s.error(i);
                } else {
                    s.complete();
                }
                if open {
                    end = Some(e.clone());
                    for (_, _, want, _) in subs.iter_mut() {
                        want.push(e.clone());
                    }
                }
            }
            P::X => {
                s.unsubscribe();
                gone = true;
            }
            k => {
                let rec = RecH::new();
                let sub: Box<dyn std::any::Any> = match k {
                    P::Direct => Box::new(s.clone().map(|(v, _): (i64, u8)| v).subscribe(rec.rec())),
                    P::All => Box::new(s.all().subscribe(rec.rec())),
                    P::Only(p) => Box::new(s.only_by_provenance(*p).subscribe(rec.rec())),
                    P::Replay(p) => Box::new(s.replay_then_by_provenance(*p).subscribe(rec.rec())),
                    _ => unreachable!(),
                };
                let mut want = vec![];
                if !matches!(end, Some(Ev::E(_))) && passes(k, latest, true) {
                    want.push(Ev::N(latest.0));
                }
                want.extend(end.clone());
                subs.push((k.clone(), rec, want, sub));
            }
        }
        for (k, rec, want, _) in &subs {
            eq(&format!("signals of the subscriber {k:?} after call {i}"), rec.log().into_iter().filter(|e| *e != Ev::U).collect::<Vec<_>>(), want.clone())?;
        }
        eq("value()", s.value(), latest)?;
    }
    Ok(())
}
fn hist_sends<S: Sj>(c: &mut Ctx, name: &str) {
    // the subscriber sends values while it is being given the history
    for n in 0..4usize {
        for k in 1..3usize {
            let mut top = vec![A::N(0); n];
            top.extend([A::S(0), A::S(1), A::N(0)]);
            let p = Prog { top, scripts: vec![vec![], vec![vec![A::N(0); k]]], take: vec![], fin: vec![] };
            let d = format!("{p:?}");
            c.case(&format!("{name}: sends while given the history"), &d, || run::<S>(&p, 40, true));
        }
    }
}
fn main() {
    main_with(|c| {
        programs::<Beh>(c, "behavior", 1);
        programs::<Rep<1>>(c, "replay(1)", 1);
        programs::<Rep<2>>(c, "replay(2)", 1);
        programs::<Rep<5>>(c, "replay(5)", 1);
        programs::<Rep<300>>(c, "replay(300)", 3);
        programs::<Last>(c, "async", 1);
        programs::<Mix>(c, "async with a reducer", 1);
        hist_sends::<Beh>(c, "behavior");
        hist_sends::<Rep<2>>(c, "replay");
        hist_sends::<Mix>(c, "async");
        let alpha = vec![P::N(1), P::N(2), P::E, P::C, P::X, P::Direct, P::All, P::Only(1), P::Replay(2)];
        for t in seqs(&alpha, c.size(4, 5)) {
            let d = format!("{t:?}");
            c.case("provenance", &d, || provenance(&t));
        }
        let mut r = c.rng("provenance");
        for _ in 0..c.rounds(3000) {
            let t: Vec<P> = (0..r.below(20))
                .map(|_| match r.below(16) {
                    0..=7 => P::N(r.below(3) as u8),
                    8 => P::Direct,
                    9 => P::All,
                    10..=11 => P::Only(r.below(3) as u8),
                    12..=13 => P::Replay(r.below(3) as u8),
                    14 => [P::E, P::C, P::X][r.below(3)].clone(),
                    _ => P::N(1),
                })
                .collect();
            let d = format!("{t:?}");
            c.case("provenance, random", &d, || provenance(&t));
        }
    });
}
