use vh::ho::*;
use vh::prelude::*;

fn main() {
    main_with(|c| {
        let ks = [Kind::Merge(1), Kind::Merge(2), Kind::Merge(3), Kind::Merge(0), Kind::Concat];
        for ev in arrangements(c.size(6, 7), 3, 0) {
            let k1 = Case::of(ev);
            for k in ks {
                for f in [Form::Map, Form::All] {
                    c.case(&format!("{k:?} {f:?}: interleavings"), &format!("{:?}", k1.ev), || run(k, f, &k1));
                }
            }
        }
        for ev in arrangements(c.size(4, 5), 3, 3) {
            let mut k1 = Case::of(ev);
            k1.po = vec![Ev::N(0), Ev::N(1), Ev::N(2), Ev::C];
            for k in ks {
                c.case(&format!("{k:?} of three: interleavings"), &format!("{:?}", k1.ev), || run(k, Form::Obs, &k1));
            }
        }
        let ps: Vec<Vec<IEv>> = vec![vec![], vec![Ev::N(1)], vec![Ev::C], vec![Ev::N(2), Ev::N(3), Ev::C], vec![Ev::E(5)], vec![Ev::U], vec![Ev::N(4), Ev::U]];
        for p0 in &ps {
            for p1 in &ps {
                for p2 in &ps {
                    let pi = vec![p0.clone(), p1.clone(), p2.clone()];
                    for ca in [None, Some(1), Some(2)] {
                        for ev in arrangements(c.size(1, 2), 3, 3) {
                            let k1 = Case { po: vec![Ev::N(0), Ev::N(1), Ev::N(2), Ev::C], pi: pi.clone(), ca, ..Case::of(ev) };
                            for k in ks {
                                c.case(&format!("{k:?} of three: values on subscribe"), &format!("{k1:?}"), || run(k, Form::Obs, &k1));
                            }
                            c.case("Merge(2) Map: values on subscribe", &format!("{k1:?}"), || run(Kind::Merge(2), Form::Map, &k1));
                        }
                        if ca.is_none() {
                            for ev in arrangements(c.size(3, 4), 3, 0) {
                                let k1 = Case { pi: pi.clone(), ..Case::of(ev) };
                                c.case("Merge(2) Map: values on inner subscribe", &format!("{k1:?}"), || run(Kind::Merge(2), Form::Map, &k1));
                                c.case("Concat All: values on inner subscribe", &format!("{k1:?}"), || run(Kind::Concat, Form::All, &k1));
                            }
                        }
                    }
                }
            }
        }
        for b in [false, true] {
            c.case("arrivals while released", &format!("concat {b}"), || late(b));
        }
        for n in [20usize, 70, 300] {
            for limit in [None, Some(1), Some(3), Some(9), Some(17), Some(70), Some(usize::MAX)] {
                for seed in 0..4u64 {
                    c.case("many sources", &format!("n={n} limit={limit:?} seed={seed}"), || many(limit, n, seed));
                }
            }
        }
        let mut r = c.rng("s15");
        for i in 0..c.rounds(6000) {
            let k1 = random(&mut r, 40, i % 3 == 2, i % 4 == 1);
            let f = [Form::Map, Form::All, Form::Obs][i % 3];
            for k in [Kind::Merge(1 + i % 4), Kind::Concat] {
                c.case(&format!("{}: random", if k == Kind::Concat { "concat" } else { "merge" }), &format!("{k:?} {f:?} {k1:?}"), || run(k, f, &k1));
            }
        }
    });
}
/// many sources: a plain model of who is active and who waits
fn many(limit: Option<usize>, n: usize, seed: u64) -> Result<(), String> {
    use rx_core::prelude::*;
    use std::collections::VecDeque;
    let mut r = Rng(seed);
    let src: Vec<Script<i64, i64>> = (0..n).map(|_| Script::with(vec![])).collect();
    let mut outer: PublishSubject<usize, i64> = Default::default();
    let f = {
        let src = src.clone();
        move |k: usize| src[k].clone()
    };
    let h: RecH<i64, i64> = RecH::new();
    let id = |e: i64| e;
    let sub = match limit {
        None => outer.clone().concat_map(f, id).subscribe(h.rec()).into_shared(),
        Some(l) => outer.clone().merge_map(f, l, id).subscribe(h.rec()).into_shared(),
    };
    let max = limit.unwrap_or(1).max(1);
    let (mut active, mut wait, mut want, mut sent) = (vec![], VecDeque::new(), vec![], 0);
    for step in 0..8 * n + 40 {
        match r.below(7) {
            0..=2 if sent < n => {
                outer.next(sent);
                wait.push_back(sent);
                sent += 1;
            }
            3..=4 if !active.is_empty() => {
                let k: usize = active[r.below(active.len())];
                src[k].offer_all(Ev::N(step as i64));
                want.push(Ev::N(step as i64));
            }
            5 if !active.is_empty() && (active.len() >= max || sent == n || r.chance(20)) => {
                let k: usize = active.remove(r.below(active.len()));
                src[k].offer_all(Ev::C);
            }
            _ => {}
        }
        while active.len() < max && !wait.is_empty() {
            active.extend(wait.pop_front());
        }
        let subscribed: usize = src.iter().map(|s| Script::count(s)).sum();
        eq(&format!("subscriptions made after step {step}"), subscribed, sent - wait.len())?;
        ensure(active.iter().all(|k| Script::count(&src[*k]) == 1), format!("an active source has no subscription after step {step}"))?;
    }
    eq("values", h.log(), want.clone())?;
    if seed % 2 == 0 {
        outer.complete();
        while let Some(k) = active.pop() {
            ensure(!sub.is_closed(), "ended early")?;
            src[k].offer_all(Ev::C);
            while active.len() < max && !wait.is_empty() {
                active.extend(wait.pop_front());
            }
        }
        want.push(Ev::C);
    } else if let Some(k) = active.pop() {
        src[k].offer_all(Ev::E(5));
        want.push(Ev::E(5));
    } else {
        outer.error(5);
        want.push(Ev::E(5));
    }
    eq("signals", h.log(), want)?;
    ensure(sub.is_closed(), "not closed at the end")?;
    ensure(src.iter().all(|s| s.live() == 0), "a source is still held")
}
/// sources that arrive while others are being released still start in order of arrival
fn late(cc: bool) -> Result<(), String> {
    use rx_core::prelude::*;
    let src: Vec<Script<i64, i64>> = (0..4).map(|k| Script::with(if k == 1 { vec![Ev::C] } else { vec![] })).collect();
    let outer: PublishSubject<usize, i64> = Default::default();
    let f = {
        let (outer, src) = (outer.clone(), src.clone());
        move |k: usize| {
            let outer = outer.clone();
            src[k].clone().finalize(move || {
                let mut o = outer.clone();
                match k {
                    0 => o.next(3),
                    1 => o.next(2),
                    _ => {}
                }
            })
        }
    };
    let h: RecH<i64, i64> = RecH::new();
    let mut o2 = outer.clone();
    let id = |e: i64| e;
    let _s = if cc { outer.concat_map(f, id).subscribe(h.rec()).into_shared() } else { outer.merge_map(f, 1, id).subscribe(h.rec()).into_shared() };
    o2.next(0);
    o2.next(1);
    src[0].offer_all(Ev::C);
    eq("subscriptions", src.iter().map(|s| s.count()).collect::<Vec<_>>(), vec![1, 1, 1, 0])?;
    src[2].offer_all(Ev::C);
    eq("subscriptions", src.iter().map(|s| s.count()).collect::<Vec<_>>(), vec![1, 1, 1, 1])
}
