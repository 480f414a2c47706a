use rx_core::observable::{QueueOverflowBehavior, QueueOverflowOptions};
use rx_core::observable_fn::*;
use std::collections::VecDeque;
use vh::prelude::*;
use vh::two::*;
use rx_core_notification_store::NotificationQueue;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Zip(usize, bool),
    Join,
}
#[derive(Default)]
struct Side {
    q: VecDeque<i64>,
    done: bool,
    closed: bool,
}
struct L {
    k: Kind,
    s: [Side; 2],
}
impl Law for L {
    fn first(&self) -> u8 {
        0
    }
    fn step(&mut self, side: u8, e: &IEv) -> Trace {
        let i = side as usize;
        let mut out = vec![];
        match e {
            Ev::N(x) => match self.k {
                Kind::Zip(max, drop_oldest) => {
                    let q = &mut self.s[i].q;
                    if q.len() < max {
                        q.push_back(*x)
                    } else if drop_oldest {
                        q.pop_front();
                        q.push_back(*x)
                    }
                }
                Kind::Join => self.s[i].q = [*x].into(),
            },
            Ev::C => {
                self.s[i].done = true;
                self.s[i].closed = true
            }
            Ev::U => self.s[i].closed = true,
            Ev::E(x) => return vec![Ev::E(*x)],
        }
        let pair = self.s[0].q.front().copied().zip(self.s[1].q.front().copied());
        let ends = |s: &Side, f: fn(&Side) -> bool| f(s) && s.q.is_empty();
        match self.k {
            Kind::Zip(..) => {
                if let Some(p) = pair {
                    self.s[0].q.pop_front();
                    self.s[1].q.pop_front();
                    out.push(Ev::N(format!("{p:?}")));
                }
                if self.s.iter().any(|s| ends(s, |s| s.done)) {
                    out.push(Ev::C)
                } else if self.s.iter().any(|s| ends(s, |s| s.closed)) {
                    out.push(Ev::U)
                }
            }
            Kind::Join => {
                if self.s.iter().all(|s| s.done) {
                    if let Some(p) = pair {
                        out.push(Ev::N(format!("{p:?}")))
                    }
                    out.push(Ev::C)
                } else if self.s.iter().all(|s| s.closed) {
                    out.push(Ev::U)
                }
            }
        }
        out
    }
}
fn run(k: Kind, c: &Case) -> Result<(), String> {
    let mut l = L { k, s: Default::default() };
    let opt = |max_queue_length: usize, d: bool| QueueOverflowOptions { max_queue_length, overflow_behavior: if d { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext } };
    match (k, c.subjects) {
        (Kind::Zip(100, true), false) => check(c, &mut l, |a, b| zip(a, b)),
        (Kind::Zip(n, d), false) => check(c, &mut l, |a, b| zip(a, b).with_options(opt(n, d))),
        (Kind::Join, false) => check(c, &mut l, |a, b| join(a, b)),
        (Kind::Zip(n, d), true) => check_subjects(c, &mut l, |a, b| zip(a, b).with_options(opt(n, d))),
        (Kind::Join, true) => check_subjects(c, &mut l, |a, b| join(a, b)),
    }
}
/// 0 push a value, 1 push a completion, 2 push an unsubscription, 3 pop
fn queue(ops: &[usize], m: usize, d: bool) -> Result<(), String> {
    use rx_core_common::SubscriberNotification as SN;
    use std::collections::VecDeque;
    let mut q: NotificationQueue<i64, i64> = NotificationQueue::new(QueueOverflowOptions { max_queue_length: m, overflow_behavior: if d { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext } });
    let mut w: VecDeque<Option<i64>> = VecDeque::new();
    for (i, o) in ops.iter().enumerate() {
        match o {
            0 => {
                if w.iter().flatten().count() >= m {
                    if !d {
                        q.push(SN::Next(i as i64));
                        continue;
                    }
                    let k = w.iter().position(|x| x.is_some()).unwrap();
                    w.remove(k);
                }
                w.push_back(Some(i as i64));
                q.push(SN::Next(i as i64));
            }
            1 => {
                w.push_back(None);
                q.push(SN::Complete)
            }
            2 => {
                w.push_back(None);
                q.push(SN::Unsubscribe)
            }
            _ => {
                let want = match w.front() {
                    Some(Some(x)) => Some(*x),
                    _ => None,
                };
                if want.is_some() {
                    w.pop_front();
                }
                eq("front value", q.pop_next_if_in_front(), want)?;
            }
        }
        eq("number of values", q.count_nexts(), w.iter().flatten().count())?;
        eq("length", q.len(), w.len())?;
    }
    Ok(())
}
fn main() {
    main_with(|c| {
        let ks = [Kind::Zip(100, true), Kind::Zip(1, true), Kind::Zip(1, false), Kind::Zip(2, true), Kind::Zip(2, false), Kind::Zip(3, true), Kind::Zip(3, false), Kind::Zip(0, false), Kind::Join];
        for ev in arrangements(c.size(7, 8)) {
            for k in ks {
                let mut k1 = Case::of(ev.clone());
                c.case(&format!("{k:?}: interleavings"), &format!("{:?}", k1.ev), || run(k, &k1));
                k1.subjects = true;
                c.case(&format!("{k:?}: interleavings, subjects"), &format!("{:?}", k1.ev), || run(k, &k1));
            }
        }
        let ps: Vec<Vec<IEv>> = vec![vec![], vec![Ev::N(1)], vec![Ev::C], vec![Ev::E(5)], vec![Ev::U], vec![Ev::N(1), Ev::N(2), Ev::C], vec![Ev::N(1), Ev::N(2), Ev::N(3), Ev::N(4)], vec![Ev::N(1), Ev::E(3)], vec![Ev::N(2), Ev::U]];
        for pa in &ps {
            for pb in &ps {
                for ev in arrangements(c.size(2, 3)) {
                    for ca in [None, Some(1), Some(2)] {
                        let k1 = Case { pa: pa.clone(), pb: pb.clone(), ca, ..Case::of(ev.clone()) };
                        for k in [ks[0], ks[3], ks[4], Kind::Join] {
                            c.case(&format!("{k:?}: values on subscribe"), &format!("{k1:?}"), || run(k, &k1));
                        }
                    }
                }
            }
        }
        let mut r = c.rng("s14");
        // long histories, balanced and not
        for (n, b) in [(70u64, 50usize), (300, 50), (300, 90), (900, 20), (1200, 50)] {
            for end in [Ev::C, Ev::E(5), Ev::U] {
                let mut ev: Vec<(u8, IEv)> = (0..n as i64).map(|i| (r.chance(b) as u8, Ev::N(i))).collect();
                ev.extend([(1, end.clone()), (0, Ev::N(7000)), (0, Ev::N(7001)), (0, end)]);
                let k1 = Case::of(ev);
                for k in [Kind::Zip(100, true), Kind::Zip(1000, true), Kind::Zip(300, false), Kind::Join] {
                    c.case("long histories", &format!("{k:?} {k1:?}"), || run(k, &k1));
                }
            }
        }
        for i in 0..c.rounds(6000) {
            let k1 = random(&mut r, 30, i % 2 == 1);
            for k in [Kind::Zip(100, true), Kind::Zip(1 + i % 4, i % 3 == 0), Kind::Join] {
                c.case(&format!("{}: random", if k == Kind::Join { "join" } else { "zip" }), &format!("{k:?} {k1:?}"), || run(k, &k1));
            }
        }
        // the queue itself, with its end queued before, between and after the values
        for ops in seqs(&[0usize, 1, 2, 3], c.size(7, 9)) {
            for (m, d) in [(1, true), (2, true), (3, true), (1, false), (2, false)] {
                c.case("queue: limit", &format!("{ops:?} max {m} {d}"), || queue(&ops, m, d));
            }
        }
        // the default limit of 100 drops the oldest
        for n in [99i64, 100, 101, 137, 250] {
            let mut k1 = Case::of((0..n).map(|i| (0u8, Ev::N(i))).collect());
            k1.ev.extend((0..n).map(|i| (1u8, Ev::N(1000 + i))));
            k1.ev.push((0, Ev::C));
            c.case("zip: default limit", &format!("{n} before the other"), || run(Kind::Zip(100, true), &k1));
        }
    });
}
