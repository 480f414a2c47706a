use rx_core::operator::*;
use rx_core::prelude::*;
use vh::prelude::*;
fn main() {
    main_with(|c| {
        let n = c.size(4, 6);
        let mut inp = inputs(&[0i64, 1, 2], n.min(4), 9i64);
        if n > 4 {
            inp.extend(inputs(&[0i64, 1], n, 9i64));
        }
        let mut r = c.rng("s02");
        let k = c.rounds(60);
        inp.extend(rand_inputs(&mut r, k, 12, -3, 6, 9i64));
        let long: Vec<Vec<IEv>> = long_inputs(|i| (i as i64 * 31) % 1009, 9i64);
        inp.extend(long.clone());
        type F<O, E> = Vec<Ev<O, E>>;
        check_unary(c, "first", "", &inp, |s| s.first().map_error(|e| format!("{e:?}")), |ev| -> F<i64, String> {
            if let Some(x) = nexts(ev).first() {
                return vec![Ev::N(*x), Ev::C];
            }
            match end_of::<_, _, ()>(ev) {
                Some(Ev::C) => vec![Ev::E("NoNextObservedBeforeComplete".to_string())],
                Some(Ev::E(e)) => vec![Ev::E(format!("Upstream({e})"))],
                Some(_) => vec![Ev::U],
                None => vec![],
            }
        });
        for t in -1..=2i64 {
            check_unary(c, "find", &format!("x=={t}"), &inp, |s| s.find(move |x: &i64| *x == t), |ev| -> F<i64, FindOperatorError<i64>> {
                if let Some(x) = nexts(ev).iter().find(|x| **x == t) {
                    return vec![Ev::N(*x), Ev::C];
                }
                match end_of::<_, _, ()>(ev) {
                    Some(Ev::C) => vec![Ev::E(if nexts(ev).is_empty() { FindOperatorError::NoNextObservedBeforeComplete } else { FindOperatorError::NoMatchObserved })],
                    Some(Ev::E(e)) => vec![Ev::E(FindOperatorError::Upstream(e))],
                    Some(_) => vec![Ev::U],
                    None => vec![],
                }
            });
            check_unary(c, "find_index", &format!("x=={t}"), &inp, |s| s.find_index(move |x: &i64| *x == t), |ev| -> F<usize, FindIndexOperatorError<i64>> {
                if let Some(x) = nexts(ev).iter().position(|x| *x == t) {
                    return vec![Ev::N(x), Ev::C];
                }
                match end_of::<_, _, ()>(ev) {
                    Some(Ev::C) => vec![Ev::E(if nexts(ev).is_empty() { FindIndexOperatorError::NoNextObservedBeforeComplete } else { FindIndexOperatorError::NoMatchObserved })],
                    Some(Ev::E(e)) => vec![Ev::E(FindIndexOperatorError::Upstream(e))],
                    Some(_) => vec![Ev::U],
                    None => vec![],
                }
            });
        }
        let huge = vec![(0..66_100i64).map(Ev::N).chain([Ev::C]).collect::<Vec<IEv>>()];
        for t in (0..=n + 1).chain([255, 256, 257, 1023, 1024, 4096, 65_535, 65_536, 66_000]) {
            let inp = if t > 60_000 { &huge } else if t > 10 { &long } else { &inp };
            for dv in [None, Some(77i64)] {
                let model = |ev: &[IEv]| -> F<i64, ElementAtOperatorError<i64>> {
                    let v = nexts(ev);
                    if let Some(x) = v.get(t) {
                        return vec![Ev::N(*x), Ev::C];
                    }
                    match end_of::<_, _, ()>(ev) {
                        Some(Ev::C) => match dv {
                            Some(d) => vec![Ev::N(d), Ev::C],
                            None => vec![Ev::E(ElementAtOperatorError::IndexOutOfRange { requested_index: t, observed_nexts: v.len() })],
                        },
                        Some(Ev::E(e)) => vec![Ev::E(ElementAtOperatorError::Upstream(e))],
                        Some(_) => vec![Ev::U],
                        None => vec![],
                    }
                };
                match dv {
                    None => check_unary(c, "element_at", &format!("i={t}"), inp, |s| s.element_at(t), model),
                    Some(d) => check_unary(c, "element_at or default", &format!("i={t}"), inp, |s| s.element_at_or_else(t, ProvideWithCloneOf(d)), model),
                }
            }
        }
        check_unary(c, "count", "", &inp, |s| s.count(), |ev| -> F<usize, i64> {
            match end_of::<_, _, ()>(ev) {
                Some(Ev::C) => vec![Ev::N(nexts(ev).len()), Ev::C],
                Some(Ev::E(e)) => vec![Ev::E(e)],
                Some(_) => vec![Ev::U],
                None => vec![],
            }
        });
        check_unary(c, "reduce", "3*a+x seed 5", &inp, |s| s.reduce(|a: &i64, x: i64| (3 * a + x) % 1_000_003, 5i64), |ev| -> F<i64, i64> {
            match end_of::<_, _, ()>(ev) {
                Some(Ev::C) => vec![Ev::N(nexts(ev).into_iter().fold(5, |a, x| (3 * a + x) % 1_000_003)), Ev::C],
                Some(Ev::E(e)) => vec![Ev::E(e)],
                Some(_) => vec![Ev::U],
                None => vec![],
            }
        });
        check_unary(c, "is_empty", "", &inp, |s| s.is_empty(), |ev| -> F<bool, i64> {
            if !nexts(ev).is_empty() {
                return vec![Ev::N(false), Ev::C];
            }
            match end_of::<_, _, ()>(ev) {
                Some(Ev::C) => vec![Ev::N(true), Ev::C],
                Some(Ev::E(e)) => vec![Ev::E(e)],
                Some(_) => vec![Ev::U],
                None => vec![],
            }
        });
    })
}
