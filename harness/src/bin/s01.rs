use rx_core::prelude::*;
use vh::prelude::*;
fn main() {
    main_with(|c| {
        let n = c.size(4, 6);
        let mut inp = inputs(&[0i64, 1, 2], n.min(4), 9i64);
        if n > 4 {
            inp.extend(inputs(&[0i64, 1], n, 9i64));
        }
        let mut r = c.rng("s01");
        let k = c.rounds(40);
        inp.extend(rand_inputs(&mut r, k, 12, -3, 6, 9i64));
        let long: Vec<Vec<IEv>> = long_inputs(|i| (i as i64 * 31) % 1009, 9i64);
        inp.extend(long.clone());
        for t in (0..=n + 1).chain([255, 256, 257, 1024, 1025, 4096]) {
            let inp = if t > 10 { &long } else { &inp };
            check_unary(c, "take", &format!("n={t}"), inp, |s| s.take(t), |ev| {
                let mut o: Vec<IEv> = nexts(ev).into_iter().take(t).map(Ev::N).collect();
                if o.len() == t { o.push(Ev::C) } else { o.extend(end_of(ev)) }
                o
            });
            check_unary(c, "skip", &format!("n={t}"), inp, |s| s.skip(t), |ev| {
                let mut o: Vec<IEv> = nexts(ev).into_iter().skip(t).map(Ev::N).collect();
                o.extend(end_of(ev));
                o
            });
        }
        check_unary(c, "filter by value", "even", &inp, |s| s.filter(|x: &i64, _| x % 2 == 0), |ev| {
            let mut o: Vec<IEv> = nexts(ev).into_iter().filter(|x| x % 2 == 0).map(Ev::N).collect();
            o.extend(end_of(ev));
            o
        });
        check_unary(c, "filter by index", "index%3!=1", &inp, |s| s.filter(|_: &i64, i| i % 3 != 1), |ev| {
            let mut o: Vec<IEv> = nexts(ev).into_iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|x| Ev::N(x.1)).collect();
            o.extend(end_of(ev));
            o
        });
        check_unary(c, "filter_map", "odd*10", &inp, |s| s.filter_map(|x: i64| if x % 2 != 0 { Some(x * 10) } else { None }), |ev| {
            let mut o: Vec<IEv> = nexts(ev).into_iter().filter(|x| x % 2 != 0).map(|x| Ev::N(x * 10)).collect();
            o.extend(end_of(ev));
            o
        });
        let oinp: Vec<Vec<Ev<Option<i64>, i64>>> = inputs(&[None, Some(0i64), Some(1)], n.min(4), 9i64);
        check_unary(c, "lift_option", "", &oinp, |s| s.lift_option(), |ev| {
            let mut o: Vec<IEv> = nexts(ev).into_iter().flatten().map(Ev::N).collect();
            o.extend(end_of(ev));
            o
        });
    })
}
