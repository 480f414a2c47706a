use std::sync::RwLock;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vh::prelude::*;

type Dyn = Box<dyn SubscriptionWithTeardown + Send + Sync>;
/// what happens to the whole when one handle is dropped
#[derive(Clone, Copy, PartialEq, Debug)]
enum OnDrop {
    Closes,
    Keeps,
}
struct Kind {
    name: &'static str,
    make: fn(usize) -> Vec<Dyn>,
    on_drop: OnDrop,
    /// takes part in calls made from within its own teardowns
    reentrant: bool,
}
struct Null;
impl ObserverInput for Null {
    type In = i64;
    type InError = i64;
}
impl RxObserver for Null {
    fn next(&mut self, _: i64) {}
    fn error(&mut self, _: i64) {}
    fn complete(&mut self) {}
}
impl WithPrimaryCategory for Null {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl UpgradeableObserver for Null {
    type Upgraded = ObserverSubscriber<Self>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
struct Weaky(Weak<Mutex<SubscriptionData>>, #[allow(dead_code)] Option<Arc<Mutex<SubscriptionData>>>);
impl SubscriptionLike for Weaky {
    fn is_closed(&self) -> bool {
        self.0.is_closed()
    }
    fn unsubscribe(&mut self) {
        self.0.unsubscribe()
    }
}
impl TeardownCollection for Weaky {
    fn add_teardown(&mut self, t: Teardown) {
        self.0.add_teardown(t)
    }
}
use std::sync::Weak;
fn bx(s: impl SubscriptionWithTeardown + Send + Sync + 'static) -> Dyn {
    Box::new(s)
}
fn clones<S: SubscriptionWithTeardown + Send + Sync + Clone + 'static>(s: S, n: usize) -> Vec<Dyn> {
    (0..n).map(|_| bx(s.clone())).collect()
}
fn kinds() -> Vec<Kind> {
    use OnDrop::*;
    vec![
        Kind { name: "SubscriptionData", make: |_| vec![bx(SubscriptionData::default())], on_drop: Closes, reentrant: false },
        Kind { name: "SubscriptionData::new_with_teardown(none)", make: |_| vec![bx(SubscriptionData::new_with_teardown(Teardown::default()))], on_drop: Closes, reentrant: false },
        Kind { name: "ErasedSubscription", make: |_| vec![bx(ErasedSubscription::new(SubscriptionData::default()))], on_drop: Closes, reentrant: false },
        Kind { name: "OptionSubscription", make: |_| vec![bx(OptionSubscription::new(Some(SubscriptionData::default())))], on_drop: Closes, reentrant: false },
        Kind { name: "ObserverSubscriber", make: |_| vec![bx(ObserverSubscriber::new(Null))], on_drop: Closes, reentrant: false },
        Kind { name: "Arc<Mutex<SubscriptionData>>", make: |n| clones(Arc::new(Mutex::new(SubscriptionData::default())), n), on_drop: Keeps, reentrant: false },
        Kind { name: "Arc<RwLock<ObserverSubscriber>>", make: |n| clones(Arc::new(RwLock::new(ObserverSubscriber::new(Null))), n), on_drop: Keeps, reentrant: false },
        Kind {
            name: "Weak<Mutex<SubscriptionData>>",
            make: |n| {
                let a = Arc::new(Mutex::new(SubscriptionData::default()));
                (0..n).map(|i| bx(Weaky(Arc::downgrade(&a), if i == 0 { Some(a.clone()) } else { None }))).collect()
            },
            on_drop: Keeps,
            reentrant: false,
        },
        Kind { name: "SharedSubscription", make: |n| clones(SharedSubscription::default(), n), on_drop: Keeps, reentrant: true },
        Kind { name: "SharedSubscription::new", make: |n| clones(SharedSubscription::new(SubscriptionData::default()), n), on_drop: Keeps, reentrant: true },
        Kind { name: "SharedSubscriber<ObserverSubscriber>", make: |n| clones(SharedSubscriber::new(ObserverSubscriber::new(Null)), n), on_drop: Keeps, reentrant: true },
        Kind { name: "erased SharedSubscription", make: |n| {
            let s = SharedSubscription::default();
            (0..n).map(|_| bx(ErasedSubscription::new(s.clone()))).collect()
        }, on_drop: Closes, reentrant: true },
    ]
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(usize),
    AddNone(usize),
    Unsub(usize),
    Drop(usize),
}
struct World {
    hs: Vec<Option<Dyn>>,
    runs: Vec<Arc<AtomicUsize>>,
    due: Vec<bool>,
    closed: bool,
}
fn check(w: &World, at: &str) -> Result<(), String> {
    for (i, h) in w.hs.iter().enumerate() {
        if let Some(h) = h {
            eq(&format!("is_closed of handle {i} {at}"), h.is_closed(), w.closed)?;
        }
    }
    for (i, (r, d)) in w.runs.iter().zip(&w.due).enumerate() {
        eq(&format!("runs of teardown {i} {at}"), r.load(SeqCst), *d as usize)?;
    }
    Ok(())
}
fn run_ops(k: &Kind, n: usize, ops: &[Op]) -> Result<(), String> {
    let mut w = World { hs: (k.make)(n).into_iter().map(Some).collect(), runs: vec![], due: vec![], closed: false };
    let weak = k.name.starts_with("Weak");
    let strict_opt = k.name == "OptionSubscription";
    let _ = strict_opt;
    check(&w, "at start")?;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Add(h) => {
                if let Some(s) = w.hs.get_mut(*h).and_then(|x| x.as_mut()) {
                    let r: Arc<AtomicUsize> = Default::default();
                    let r2 = r.clone();
                    s.add_teardown(Teardown::new(move || {
                        r2.fetch_add(1, SeqCst);
                    }));
                    w.runs.push(r);
                    w.due.push(w.closed);
                }
            }
            Op::AddNone(h) => {
                if let Some(s) = w.hs.get_mut(*h).and_then(|x| x.as_mut()) {
                    s.add_teardown(Teardown::default());
                }
            }
            Op::Unsub(h) => {
                if let Some(s) = w.hs.get_mut(*h).and_then(|x| x.as_mut()) {
                    s.unsubscribe();
                    w.closed = true;
                    w.due.iter_mut().for_each(|d| *d = true);
                }
            }
            Op::Drop(h) => {
                if let Some(x) = w.hs.get_mut(*h) {
                    if x.take().is_some() {
                        let last = w.hs.iter().all(|x| x.is_none());
                        if k.on_drop == OnDrop::Closes || (last && !k.name.ends_with("::new")) || (weak && *h == 0) {
                            w.closed = true;
                            w.due.iter_mut().for_each(|d| *d = true);
                        }
                    }
                }
            }
        }
        check(&w, &format!("after step {i} {o:?}"))?;
    }
    for i in 0..w.hs.len() {
        w.hs[i] = None;
    }
    if k.name.ends_with("::new") && !w.closed {
        return Ok(());
    }
    w.due.iter_mut().for_each(|d| *d = true);
    check(&w, "after dropping everything")
}
/// how the output of an `ObserverSubscriber`-like subscriber can end
fn terminal<S: Subscriber<In = i64, InError = i64> + Send + Sync + 'static>(c: &mut Ctx, name: &str, make: impl Fn() -> S) {
    for pre in 0..3usize {
        for end in ["complete", "error", "unsubscribe", "drop"] {
            for twice in [false, true] {
                c.case("the end of a subscriber runs every teardown exactly once", &format!("{name} teardowns={pre} end={end} twice={twice}"), || {
                    let mut s = Some(make());
                    let runs: Vec<Arc<AtomicUsize>> = (0..pre + 1).map(|_| Default::default()).collect();
                    let td = |i: usize| {
                        let r = runs[i].clone();
                        Teardown::new(move || {
                            r.fetch_add(1, SeqCst);
                        })
                    };
                    for i in 0..pre {
                        s.as_mut().unwrap().add_teardown(td(i));
                    }
                    s.as_mut().unwrap().next(1);
                    for i in 0..pre {
                        eq("runs before the end", runs[i].load(SeqCst), 0)?;
                    }
                    for _ in 0..(if twice { 2 } else { 1 }) {
                        match end {
                            "complete" => s.as_mut().map(|s| s.complete()).unwrap_or(()),
                            "error" => s.as_mut().map(|s| s.error(9)).unwrap_or(()),
                            "unsubscribe" => s.as_mut().map(|s| s.unsubscribe()).unwrap_or(()),
                            _ => s = None,
                        }
                        for i in 0..pre {
                            eq("runs at the end", runs[i].load(SeqCst), 1)?;
                        }
                    }
                    if let Some(s) = s.as_mut() {
                        ensure(s.is_closed(), "not closed after the end")?;
                        s.add_teardown(td(pre));
                        eq("late teardown runs at once", runs[pre].load(SeqCst), 1)?;
                        s.next(5);
                        s.unsubscribe();
                        ensure(s.is_closed(), "reopened")?;
                    }
                    drop(s);
                    for i in 0..pre {
                        eq("runs after drop", runs[i].load(SeqCst), 1)?;
                    }
                    Ok(())
                });
            }
        }
    }
}
fn main() {
    main_with(|c| {
        vh::reent::search(c);
        for k in kinds() {
            let n = if k.on_drop == OnDrop::Closes && !k.reentrant { 1 } else { 2 };
            let mut alpha = vec![];
            for h in 0..n {
                alpha.extend([Op::Add(h), Op::Unsub(h), Op::Drop(h)]);
            }
            alpha.push(Op::AddNone(0));
            let len = if n == 1 { c.size(5, 6) } else { c.size(4, 5) };
            for ops in seqs(&alpha, len) {
                c.case("teardowns run exactly once", &format!("{} ops={ops:?}", k.name), || run_ops(&k, n, &ops));
            }
            for m in [9usize, 20, 70, 300] {
                for end in [Op::Unsub(0), Op::Drop(0)] {
                    let ops: Vec<Op> = (0..m).map(|i| Op::Add(i % n)).chain([end.clone(), Op::Add(0), Op::Unsub(0)]).collect();
                    c.case("teardowns run exactly once", &format!("{} ops={ops:?}", k.name), || run_ops(&k, n, &ops));
                }
            }
            let mut r = c.rng(k.name);
            for _ in 0..c.rounds(30) {
                let n = if n == 1 { 1 } else { 3 };
                let ops: Vec<Op> = (0..r.below(12))
                    .map(|_| {
                        let h = r.below(n);
                        match r.below(8) {
                            0 => Op::Unsub(h),
                            1 => Op::Drop(h),
                            2 => Op::AddNone(h),
                            _ => Op::Add(h),
                        }
                    })
                    .collect();
                c.case("teardowns run exactly once", &format!("{} handles={n} ops={ops:?}", k.name), || run_ops(&k, n, &ops));
            }
            // calls on other handles from within a teardown
            if k.reentrant {
                for acts in seqs(&["unsubscribe", "is_closed", "add", "add_then_unsubscribe", "drop"], 2) {
                    for before in 0..2usize {
                        for end in ["unsubscribe", "drop all"] {
                            if end == "drop all" && k.name.ends_with("::new") {
                                continue;
                            }
                            let d = format!("{} teardown does {acts:?} teardowns-before={before} end={end}", k.name);
                            c.case("calls from within a teardown", &d, || {
                                let mut hs: Vec<Dyn> = (k.make)(2 + acts.len());
                                let mut main = hs.remove(0);
                                let probe = hs.remove(0);
                                let runs: Vec<Arc<AtomicUsize>> = (0..3 + acts.len()).map(|_| Default::default()).collect();
                                for i in 0..before {
                                    let r = runs[i].clone();
                                    main.add_teardown(Teardown::new(move || {
                                        r.fetch_add(1, SeqCst);
                                    }));
                                }
                                let saw_open: Arc<AtomicUsize> = Default::default();
                                let so = saw_open.clone();
                                let (r1, rl): (Arc<AtomicUsize>, Vec<_>) = (runs[before].clone(), runs[before + 1..].to_vec());
                                let acts2 = acts.clone();
                                let mut hs: Vec<Option<Dyn>> = hs.into_iter().map(Some).collect();
                                let mut late = 0;
                                for a in &acts {
                                    if a.starts_with("add") {
                                        late += 1;
                                    }
                                }
                                // a handle captured by its own teardown keeps a shared subscription alive
                                if end == "drop all" {
                                    return Ok(());
                                }
                                main.add_teardown(Teardown::new(move || {
                                    r1.fetch_add(1, SeqCst);
                                    let mut j = 0;
                                    for (i, a) in acts2.iter().enumerate() {
                                        let Some(h) = hs[i].as_mut() else { continue };
                                        match *a {
                                            "unsubscribe" => h.unsubscribe(),
                                            "is_closed" => {
                                                if !h.is_closed() {
                                                    so.fetch_add(1, SeqCst);
                                                }
                                            }
                                            "drop" => hs[i] = None,
                                            a => {
                                                let r = rl[j].clone();
                                                j += 1;
                                                h.add_teardown(Teardown::new(move || {
                                                    r.fetch_add(1, SeqCst);
                                                }));
                                                if a == "add_then_unsubscribe" {
                                                    h.unsubscribe();
                                                }
                                            }
                                        }
                                    }
                                }));
                                main.unsubscribe();
                                for i in 0..before + 1 + late {
                                    eq(&format!("runs of teardown {i}"), runs[i].load(SeqCst), 1)?;
                                }
                                eq("seen open from within a teardown", saw_open.load(SeqCst), 0)?;
                                ensure(main.is_closed() && probe.is_closed(), "not closed")?;
                                main.unsubscribe();
                                drop(main);
                                drop(probe);
                                for i in 0..before + 1 + late {
                                    eq(&format!("runs of teardown {i} in the end"), runs[i].load(SeqCst), 1)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
        terminal(c, "ObserverSubscriber", || ObserverSubscriber::new(Null));
        terminal(c, "SharedSubscriber", || SharedSubscriber::new(ObserverSubscriber::new(Null)));
        terminal(c, "Arc<Mutex<ObserverSubscriber>>", || Arc::new(Mutex::new(ObserverSubscriber::new(Null))));
        terminal(c, "Arc<RwLock<ObserverSubscriber>>", || Arc::new(RwLock::new(ObserverSubscriber::new(Null))));
        terminal(c, "Box<dyn Subscriber>", || {
            let b: Box<dyn Subscriber<In = i64, InError = i64> + Send + Sync> = Box::new(ObserverSubscriber::new(Null));
            b
        });
        // teardowns made of subscriptions; closed ones and dead weak ones
        for nested in 0..4usize {
            for closed_before in [false, true] {
                c.case("a subscription added as teardown ends with its owner", &format!("depth={nested} closed-before={closed_before}"), || {
                    let r: Arc<AtomicUsize> = Default::default();
                    let r2 = r.clone();
                    let mut inner = SharedSubscription::default();
                    inner.add_fn(move || {
                        r2.fetch_add(1, SeqCst);
                    });
                    if closed_before {
                        inner.unsubscribe();
                    }
                    let mut cur: Teardown = inner.clone().into();
                    for _ in 0..nested {
                        cur = SubscriptionData::new_with_teardown(cur).into();
                    }
                    let mut owner = SubscriptionData::default();
                    owner.add_teardown(cur);
                    eq("before", r.load(SeqCst), closed_before as usize)?;
                    owner.unsubscribe();
                    eq("after", r.load(SeqCst), 1)?;
                    ensure(inner.is_closed(), "inner not closed")?;
                    drop(owner);
                    eq("end", r.load(SeqCst), 1)
                });
            }
        }
        c.case("a dead weak destination runs teardowns at once", "", || {
            let r: Arc<AtomicUsize> = Default::default();
            let r2 = r.clone();
            let a = Arc::new(Mutex::new(SubscriptionData::default()));
            let mut w = Arc::downgrade(&a);
            drop(a);
            ensure(w.is_closed(), "open")?;
            w.add_teardown(Teardown::new(move || {
                r2.fetch_add(1, SeqCst);
            }));
            eq("runs", r.load(SeqCst), 1)
        });
        c.case("an absent optional subscription is closed and runs teardowns at once", "", || {
            let r: Arc<AtomicUsize> = Default::default();
            let r2 = r.clone();
            let mut w: OptionSubscription<SubscriptionData> = OptionSubscription::new(None);
            ensure(w.is_closed(), "open")?;
            w.add_teardown(Teardown::new(move || {
                r2.fetch_add(1, SeqCst);
            }));
            eq("runs", r.load(SeqCst), 1)
        });
    })
}
