use rx_core::observable_fn::*;
use rx_core::prelude::*;
use vh::prelude::*;
use vh::two::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Latest,
    Changes,
    With,
}
/// one side: its latest value, and how it ended
#[derive(Default, Clone)]
struct Side {
    v: Option<i64>,
    done: bool,
    closed: bool,
}
struct L {
    k: Kind,
    s: [Side; 2],
}
impl Law for L {
    fn first(&self) -> u8 {
        (self.k == Kind::With) as u8
    }
    fn step(&mut self, side: u8, e: &IEv) -> Trace {
        let i = side as usize;
        match e {
            Ev::N(x) => self.s[i].v = Some(*x),
            Ev::C => {
                self.s[i].done = true;
                self.s[i].closed = true
            }
            Ev::U => self.s[i].closed = true,
            Ev::E(x) => return vec![Ev::E(*x)],
        }
        let (me, other) = (self.s[i].clone(), self.s[1 - i].clone());
        match self.k {
            Kind::With => match (side, e) {
                (0, Ev::N(x)) => other.v.map(|l| Ev::N(format!("{:?}", (x, l)))).into_iter().collect(),
                (0, Ev::C) => vec![Ev::C],
                (0, Ev::U) => vec![Ev::U],
                (1, Ev::C) if me.v.is_none() => vec![Ev::C],
                _ => vec![],
            },
            Kind::Latest => match e {
                Ev::N(_) => match (self.s[0].v, self.s[1].v) {
                    (Some(a), Some(b)) => vec![Ev::N(format!("{:?}", (a, b)))],
                    _ => vec![],
                },
                _ => {
                    let silent = |s: &Side, o: &Side| s.done && s.v.is_none() && o.v.is_some();
                    let hopeless = |s: &Side, o: &Side| s.closed && s.v.is_none() && o.v.is_none() && !o.closed;
                    if me.done && other.done || silent(&me, &other) || silent(&other, &me) {
                        vec![Ev::C]
                    } else if me.closed && other.closed || hopeless(&me, &other) {
                        vec![Ev::U]
                    } else {
                        vec![]
                    }
                }
            },
            Kind::Changes => match e {
                Ev::N(_) => {
                    let f = |j: usize| match self.s[j].v {
                        None => Change::None,
                        Some(x) if j == i => Change::JustUpdated(x),
                        Some(x) => Change::Latest(x),
                    };
                    vec![Ev::N(format!("{:?}", (f(0), f(1))))]
                }
                _ if me.done && other.done => vec![Ev::C],
                _ if me.closed && other.closed => vec![Ev::U],
                _ => vec![],
            },
        }
    }
}
fn run(k: Kind, c: &Case) -> Result<(), String> {
    let mut l = L { k, s: Default::default() };
    match (k, c.subjects) {
        (Kind::Latest, false) => check(c, &mut l, |a, b| combine_latest(a, b)),
        (Kind::Changes, false) => check(c, &mut l, |a, b| combine_changes(a, b)),
        (Kind::With, false) => check(c, &mut l, |a, b| a.with_latest_from(b)),
        (Kind::Latest, true) => check_subjects(c, &mut l, |a, b| combine_latest(a, b)),
        (Kind::Changes, true) => check_subjects(c, &mut l, |a, b| combine_changes(a, b)),
        (Kind::With, true) => check_subjects(c, &mut l, |a, b| a.with_latest_from(b)),
    }
}
fn main() {
    main_with(|c| {
        let ks = [(Kind::Latest, "combine_latest"), (Kind::Changes, "combine_changes"), (Kind::With, "with_latest_from")];
        for ev in arrangements(c.size(7, 8)) {
            for (k, n) in ks {
                let mut k1 = Case::of(ev.clone());
                c.case(&format!("{n}: interleavings"), &format!("{:?}", k1.ev), || run(k, &k1));
                k1.subjects = true;
                c.case(&format!("{n}: interleavings, subjects"), &format!("{:?}", k1.ev), || run(k, &k1));
            }
        }
        // signals while subscribing
        let ps: Vec<Vec<IEv>> = vec![vec![], vec![Ev::N(1)], vec![Ev::C], vec![Ev::E(5)], vec![Ev::U], vec![Ev::N(1), Ev::N(2), Ev::C], vec![Ev::N(1), Ev::E(3)], vec![Ev::N(2), Ev::U]];
        for pa in &ps {
            for pb in &ps {
                for ev in arrangements(c.size(2, 3)) {
                    for ca in [None, Some(1), Some(2)] {
                        let k1 = Case { pa: pa.clone(), pb: pb.clone(), ca, ..Case::of(ev.clone()) };
                        for (k, n) in ks {
                            c.case(&format!("{n}: values on subscribe"), &format!("{k1:?}"), || run(k, &k1));
                        }
                    }
                }
            }
        }
        let mut r = c.rng("s13");
        // long histories, balanced and not
        for (n, b) in [(70u64, 50usize), (300, 50), (300, 90), (900, 20), (1200, 50)] {
            for end in [Ev::C, Ev::E(5), Ev::U] {
                let mut ev: Vec<(u8, IEv)> = (0..n as i64).map(|i| (r.chance(b) as u8, Ev::N(i))).collect();
                ev.extend([(1, end.clone()), (0, Ev::N(7000)), (0, Ev::N(7001)), (0, end)]);
                let k1 = Case::of(ev);
                for k in ks.iter().map(|x| x.0) {
                    c.case("long histories", &format!("{k:?} {k1:?}"), || run(k, &k1));
                }
            }
        }
        for i in 0..c.rounds(6000) {
            let k1 = random(&mut r, 24, i % 2 == 1);
            for (k, n) in ks {
                c.case(&format!("{n}: random"), &format!("{k1:?}"), || run(k, &k1));
            }
        }
    });
}
