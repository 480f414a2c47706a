use rx_core::prelude::*;
use vh::prelude::*;

#[derive(Clone, Debug, PartialEq)]
struct W(i64);
impl From<i64> for W {
    fn from(x: i64) -> Self {
        W(x * 7 + 1)
    }
}
#[derive(Clone, Debug, PartialEq)]
struct WE(i64);
impl From<i64> for WE {
    fn from(x: i64) -> Self {
        WE(x + 1000)
    }
}
fn thru<O, F>(ev: &[IEv], mut vals: Vec<Ev<O, F>>, me: impl Fn(i64) -> F) -> Vec<Ev<O, F>> {
    match end_of::<i64, i64, ()>(ev) {
        Some(Ev::C) => vals.push(Ev::C),
        Some(Ev::E(e)) => vals.push(Ev::E(me(e))),
        Some(_) => vals.push(Ev::U),
        None => {}
    }
    vals
}
fn main() {
    main_with(|c| {
        let n = c.size(4, 6);
        let mut inp = inputs(&[0i64, 1, 2], n.min(4), 9i64);
        if n > 4 {
            inp.extend(inputs(&[0i64, 1], n, 9i64));
        }
        let mut r = c.rng("s03");
        let k = c.rounds(60);
        inp.extend(rand_inputs(&mut r, k, 24, -3, 6, 9i64));
        let long: Vec<Vec<IEv>> = long_inputs(|i| (i as i64 * 31) % 1009, 9i64);
        inp.extend(long.clone());
        let id = |e: i64| e;
        check_unary(c, "map", "", &inp, |s| s.map(|x: i64| (x, x * x)), |ev| thru(ev, nexts(ev).iter().map(|x| Ev::N((*x, x * x))).collect(), id));
        check_unary(c, "map_into", "", &inp, |s| s.map_into::<W, WE>(), |ev| thru(ev, nexts(ev).iter().map(|x| Ev::N(W(x * 7 + 1))).collect(), |e| WE(e + 1000)));
        check_unary(c, "enumerate", "", &inp, |s| s.enumerate(), |ev| thru(ev, nexts(ev).into_iter().enumerate().map(|(i, x)| Ev::N((x, i))).collect(), id));
        for seed in [0i64, 5, -2] {
            check_unary(c, "scan", &format!("31a+x seed {seed}"), &inp, |s| s.scan(|a: &i64, x: i64| (31 * a + x) % 1_000_003, seed), |ev| {
                let mut a = seed;
                thru(ev, nexts(ev).iter().map(|x| { a = (31 * a + x) % 1_000_003; Ev::N(a) }).collect(), id)
            });
        }
        check_unary(c, "pairwise", "", &inp, |s| s.pairwise(), |ev| {
            let v = nexts(ev);
            thru(ev, v.windows(2).map(|w| Ev::N([w[0], w[1]])).collect(), id)
        });
        for b in (0..=n + 1).chain([100, 255, 256, 1000, 1100, 1200, 4100]) {
            let inp = if b > 10 { &long } else { &inp };
            check_unary(c, "buffer_count", &format!("n={b}"), inp, |s| s.buffer_count(b), |ev| {
                let bs = b.max(1);
                let v = nexts(ev);
                let mut o: Vec<Ev<Vec<i64>, i64>> = v.chunks_exact(bs).map(|w| Ev::N(w.to_vec())).collect();
                let rest = v.chunks_exact(bs).remainder().to_vec();
                if let (Some(Ev::C), false) = (end_of::<i64, i64, ()>(ev), rest.is_empty()) {
                    o.push(Ev::N(rest));
                }
                thru(ev, o, id)
            });
        }
        // map_never: nothing but the other signals can flow
        let ninp: Vec<Vec<Ev<Never, i64>>> = vec![vec![], vec![Ev::C], vec![Ev::E(3)], vec![Ev::U]];
        check_unary(c, "map_never", "", &ninp, |s| s.map_never::<i64>(), |ev| end_of::<Never, i64, i64>(ev).into_iter().collect());
        let einp: Vec<Vec<Ev<i64, Never>>> = seqs(&[0i64, 1], 3).into_iter().flat_map(|s| {
            [None, Some(Ev::C), Some(Ev::U)].into_iter().map(move |e: Option<Ev<i64, Never>>| { let mut v: Vec<Ev<i64, Never>> = s.iter().cloned().map(Ev::N).collect(); v.extend(e); v })
        }).collect();
        check_unary(c, "map_never_error", "", &einp, |s| s.map_never::<i64>(), |ev| {
            ev.iter().map(|e| match e { Ev::N(x) => Ev::N(*x), Ev::C => Ev::C, Ev::U => Ev::U, Ev::E(_) => unreachable!() }).collect::<Vec<IEv>>()
        });
        let binp: Vec<Vec<Ev<Never, Never>>> = vec![vec![], vec![Ev::C], vec![Ev::U]];
        check_unary(c, "map_never_both", "", &binp, |s| s.map_never_both::<i64, i64>(), |ev| end_of::<Never, Never, i64>(ev).into_iter().map(|e| match e { Ev::C => Ev::C, _ => Ev::<i64, i64>::U }).collect());
    })
}
