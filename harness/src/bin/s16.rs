use vh::ho::*;
use vh::prelude::*;

fn main() {
    main_with(|c| {
        let ks = [(Kind::Switch, "switch"), (Kind::Exhaust, "exhaust")];
        for ev in arrangements(c.size(6, 7), 3, 0) {
            let k1 = Case::of(ev);
            for (k, n) in ks {
                for f in [Form::Map, Form::All] {
                    c.case(&format!("{n} {f:?}: interleavings"), &format!("{:?}", k1.ev), || run(k, f, &k1));
                }
            }
        }
        let ps: Vec<Vec<IEv>> = vec![vec![], vec![Ev::N(1)], vec![Ev::C], vec![Ev::N(2), Ev::N(3), Ev::C], vec![Ev::E(5)], vec![Ev::U], vec![Ev::N(4), Ev::U]];
        for p0 in &ps {
            for p1 in &ps {
                for p2 in &ps {
                    let pi = vec![p0.clone(), p1.clone(), p2.clone()];
                    for (k, n) in ks {
                        for ca in [None, Some(1), Some(2)] {
                            for ev in arrangements(c.size(1, 2), 3, 3) {
                                let k1 = Case { po: vec![Ev::N(0), Ev::N(1), Ev::N(2), Ev::C], pi: pi.clone(), ca, ..Case::of(ev) };
                                c.case(&format!("{n}: values on subscribe"), &format!("{k1:?}"), || run(k, Form::Map, &k1));
                            }
                        }
                        for ev in arrangements(c.size(4, 5), 3, 0) {
                            let k1 = Case { pi: pi.clone(), ..Case::of(ev) };
                            c.case(&format!("{n}: values on inner subscribe"), &format!("{k1:?}"), || run(k, Form::All, &k1));
                        }
                    }
                }
            }
        }
        for n in [20usize, 70, 300] {
            for seed in 0..6u64 {
                for sw in [false, true] {
                    c.case("many sources", &format!("switch={sw} n={n} seed={seed}"), || many(sw, n, seed));
                }
            }
        }
        let mut r = c.rng("s16");
        for i in 0..c.rounds(8000) {
            let k1 = random(&mut r, 40, false, i % 4 == 1);
            let f = [Form::Map, Form::All][i % 2];
            for (k, n) in ks {
                c.case(&format!("{n}: random"), &format!("{f:?} {k1:?}"), || run(k, f, &k1));
            }
        }
    });
}

/// many sources: a plain model of the one that is active
fn many(sw: bool, n: usize, seed: u64) -> Result<(), String> {
    use rx_core::prelude::*;
    let mut r = Rng(seed);
    let src: Vec<Script<i64, i64>> = (0..n).map(|_| Script::with(vec![])).collect();
    let mut outer: PublishSubject<usize, i64> = Default::default();
    let f = {
        let src = src.clone();
        move |k: usize| src[k].clone()
    };
    let h: RecH<i64, i64> = RecH::new();
    let id = |e: i64| e;
    let sub = if sw { outer.clone().switch_map(f, id).subscribe(h.rec()).into_shared() } else { outer.clone().exhaust_map(f, id).subscribe(h.rec()).into_shared() };
    let (mut active, mut want, mut subs) = (None::<usize>, vec![], vec![0; n]);
    let mut sent = 0;
    for step in 0..4 * n {
        match (r.below(6), active) {
            (0..=1, _) if sent < n => {
                outer.next(sent);
                if sw || active.is_none() {
                    active = Some(sent);
                    subs[sent] = 1;
                }
                sent += 1;
            }
            (2..=3, _) if sent > 0 => {
                let k = if r.chance(60) { active.unwrap_or(0) } else { r.below(sent) };
                src[k].offer_all(Ev::N(step as i64));
                if active == Some(k) {
                    want.push(Ev::N(step as i64));
                }
            }
            (4, Some(k)) => {
                src[k].offer_all(Ev::C);
                active = None;
            }
            _ => {}
        }
        eq(&format!("live sources after step {step}"), src.iter().enumerate().filter(|(_, s)| s.live() > 0).map(|x| x.0).collect::<Vec<_>>(), active.into_iter().collect::<Vec<_>>())?;
    }
    eq("subscriptions", src.iter().map(|s| Script::count(s)).collect::<Vec<_>>(), subs)?;
    eq("values", h.log(), want.clone())?;
    match (seed % 3, active) {
        (0, a) => {
            outer.complete();
            if let Some(k) = a {
                ensure(!sub.is_closed(), "ended early")?;
                src[k].offer_all(Ev::C);
            }
            want.push(Ev::C);
        }
        (1, Some(k)) => {
            src[k].offer_all(Ev::E(5));
            want.push(Ev::E(5));
        }
        _ => {
            outer.error(5);
            want.push(Ev::E(5));
        }
    }
    eq("signals", h.log(), want)?;
    ensure(sub.is_closed(), "not closed at the end")?;
    ensure(src.iter().all(|s| s.live() == 0), "a source is still held")
}
