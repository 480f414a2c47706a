//! composition: wrappers and chains against the operators applied one after the other
use rx_core::operator::*;
use rx_core::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use rx_core_scheduler_ticking::*;
use std::fmt::Debug;
use std::time::Duration;
use vh::cat::*;
use vh::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    Plain,
    Erased,
    ErasedTwice,
    ErasedClone,
    SomeObservable,
    Identity,
    NoOperator,
    SomeOperator,
    Composed,
    ComposedNone,
    ErasedDestination,
    BoxedDestination,
    AbsentDestination,
    PresentDestination,
    ErasedSubscription,
    SomeSubscription,
}
const WS: [W; 15] = [W::Erased, W::ErasedTwice, W::ErasedClone, W::SomeObservable, W::Identity, W::NoOperator, W::SomeOperator, W::Composed, W::ComposedNone, W::ErasedDestination, W::BoxedDestination, W::AbsentDestination, W::PresentDestination, W::ErasedSubscription, W::SomeSubscription];

type Sub = Box<dyn FnMut(&Out, usize) -> AnySub>;
fn dest<T: Signal + Debug, E: Signal + Debug>(out: &Out, closes: usize) -> impl Subscriber<In = T, InError = E> + UpgradeableObserver<In = T, InError = E> + Send + Sync + 'static {
    let f = out.fin.clone();
    let mut fin = FinalizeOperator::<T, E, _>::new(move || {
        f.fetch_add(1, Ordering::SeqCst);
    });
    let mut take = TakeOperator::<T, E>::new(closes);
    take.operator_subscribe(fin.operator_subscribe(out.obs().upgrade()))
}
fn plain<O>(mut o: O) -> Sub
where
    O: Observable + Send + Sync + 'static,
    O::Out: Debug,
    O::OutError: Debug,
{
    Box::new(move |out: &Out, c: usize| Box::new(o.subscribe(dest(out, c))) as AnySub)
}
fn wrapped<O>(mut o: O, w: W) -> Sub
where
    O: Observable + Send + Sync + 'static,
    O::Out: Debug,
    O::OutError: Debug,
{
    match w {
        W::Plain => plain(o),
        W::Erased => plain(o.erase()),
        W::ErasedTwice => plain(o.erase().erase()),
        W::ErasedClone => {
            let e = o.erase();
            Box::new(move |out: &Out, c: usize| Box::new(e.clone().subscribe(dest(out, c))) as AnySub)
        }
        W::SomeObservable => plain(Some(o)),
        W::Identity => plain(Pipe::new(o, IdentityOperator::default())),
        W::NoOperator => plain(Pipe::new(o, None::<IdentityOperator<O::Out, O::OutError>>)),
        W::SomeOperator => plain(Pipe::new(o, Some(IdentityOperator::default()))),
        W::Composed => plain(Pipe::new(o, compose_operator().compose_with(IdentityOperator::default()))),
        W::ComposedNone => plain(Pipe::new(o, compose_operator().compose_with(None::<TakeOperator<O::Out, O::OutError>>))),
        W::ErasedDestination => Box::new(move |out: &Out, c: usize| Box::new(o.subscribe(ErasedSubscriber::new(dest(out, c)))) as AnySub),
        W::BoxedDestination => Box::new(move |out: &Out, c: usize| {
            let d: BoxedSubscriber<O::Out, O::OutError> = Box::new(dest(out, c));
            Box::new(o.subscribe(d)) as AnySub
        }),
        W::AbsentDestination => {
            let mut none = None::<IdentityOperator<O::Out, O::OutError>>;
            Box::new(move |out: &Out, c: usize| Box::new(o.subscribe(none.operator_subscribe(dest(out, c)))) as AnySub)
        }
        W::PresentDestination => {
            let mut some = Some(IdentityOperator::<O::Out, O::OutError>::default());
            Box::new(move |out: &Out, c: usize| Box::new(o.subscribe(some.operator_subscribe(dest(out, c)))) as AnySub)
        }
        W::ErasedSubscription => Box::new(move |out: &Out, c: usize| Box::new(ErasedSubscription::new(o.subscribe(dest(out, c)))) as AnySub),
        W::SomeSubscription => Box::new(move |out: &Out, c: usize| Box::new(OptionSubscription::new(Some(o.subscribe(dest(out, c))))) as AnySub),
    }
}
struct WItem {
    name: &'static str,
    shared: bool,
    make: fn(&Env, W) -> Sub,
}
macro_rules! witems {
    ($($name:literal $t:literal $s:literal |$e:ident| $x:expr;)*) => { vec![$(WItem { name: $name, shared: $s, make: |$e: &Env, w: W| wrapped($x, w) }),*] };
}
fn witems() -> Vec<WItem> {
    vh::catalogue!(witems)
}

#[derive(Clone, Copy, Debug)]
enum St {
    /// subscribe once more; its destination closes itself after so many values
    Sub(usize),
    A(usize, Option<Result<i64, i64>>),
    B(usize, Option<Result<i64, i64>>),
    Tick(u64),
    Unsub(usize),
    Drop(usize),
    Teardown(usize),
}
fn ev(x: Option<Result<i64, i64>>) -> Ev<i64, i64> {
    match x {
        None => Ev::C,
        Some(Ok(v)) => Ev::N(v),
        Some(Err(v)) => Ev::E(v),
    }
}
fn random_steps(r: &mut Rng, n: usize) -> Vec<St> {
    let mut v = vec![St::Sub(if r.chance(30) { r.below(4) } else { 99 })];
    for _ in 0..n {
        let sig = |r: &mut Rng| match r.below(10) {
            0 => None,
            1 => Some(Err(r.range(0, 3))),
            _ => Some(Ok(r.range(0, 6))),
        };
        v.push(match r.below(20) {
            0 | 1 => St::Sub(if r.chance(30) { r.below(4) } else { 99 }),
            2..=7 => St::A(r.below(3), sig(r)),
            8..=12 => St::B(r.below(4), sig(r)),
            13..=15 => St::Tick(*r.pick(&[0, 5, 10, 30])),
            16 => St::Unsub(r.below(2)),
            17 => St::Drop(r.below(2)),
            _ => St::Teardown(r.below(2)),
        });
    }
    v
}
/// everything visible after every step
fn run(make: &dyn Fn(&Env) -> Sub, prefix: &[Ev<i64, i64>], steps: &[St], start: u64) -> Vec<String> {
    let mut ex = Exec::default();
    ex.tick(start);
    let env = Env::new(&ex);
    *lk(&env.a.default_prefix) = prefix.to_vec();
    let mut sub = make(&env);
    let mut outs: Vec<Out> = vec![];
    let mut subs: Vec<Option<AnySub>> = vec![];
    let tds: Arc<AtomicUsize> = Default::default();
    let mut seen = vec![];
    for s in steps {
        match *s {
            St::Sub(c) => {
                let o = Out::default();
                outs.push(o.clone());
                subs.push(Some(sub(&o, c)));
            }
            St::A(i, x) => {
                if (&env.a).count() > i {
                    env.a.conn(i).offer(ev(x))
                }
            }
            St::B(i, x) => {
                if (&env.b).count() > i {
                    env.b.conn(i).offer(ev(x))
                }
            }
            St::Tick(n) => ex.tick(n),
            St::Unsub(i) => {
                if let Some(Some(s)) = subs.get_mut(i) {
                    s.unsubscribe()
                }
            }
            St::Drop(i) => {
                // (not every subscription unsubscribes when dropped: a finding of S07)
                if let Some(Some(mut s)) = subs.get_mut(i).map(|s| s.take()) {
                    s.unsubscribe();
                }
            }
            St::Teardown(i) => {
                if let Some(Some(s)) = subs.get_mut(i) {
                    let t = tds.clone();
                    s.add_teardown(Teardown::new(move || {
                        t.fetch_add(1, Ordering::SeqCst);
                    }))
                }
            }
        }
        let closed: Vec<bool> = subs.iter().map(|s| s.as_ref().is_none_or(|s| s.is_closed())).collect();
        let logs: Vec<Vec<SEv>> = outs.iter().map(|o| o.get()).collect();
        let fins: Vec<usize> = outs.iter().map(|o| o.fin.load(Ordering::SeqCst)).collect();
        seen.push(format!("{logs:?} closed {closed:?} finalized {fins:?} teardowns {} sources {} of {}, {} of {}", tds.load(Ordering::SeqCst), env.a.live(), (&env.a).count(), env.b.live(), (&env.b).count()));
    }
    for s in subs.iter_mut().flatten() {
        s.unsubscribe();
    }
    drop(subs);
    let fins: Vec<usize> = outs.iter().map(|o| o.fin.load(Ordering::SeqCst)).collect();
    seen.push(format!("at the end: finalized {fins:?} teardowns {} sources {} {}", tds.load(Ordering::SeqCst), env.a.live(), env.b.live()));
    seen
}
fn differ(steps: &[St], got: Vec<String>, want: Vec<String>) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            return Err(format!("after {:?}: {g}, should be {w}", &steps[..steps.len().min(i + 1)]));
        }
    }
    eq("steps", got.len(), want.len())
}

type Er = ErasedObservable<i64, i64>;
type Stage = (&'static str, fn(Er) -> Er);
fn stages() -> Vec<Stage> {
    vec![
        ("map", |o| o.map(|v: i64| v + 1).erase()),
        ("map_error", |o| o.map_error(|v: i64| v + 1).erase()),
        ("filter", |o| o.filter(|v: &i64, _| v % 2 == 0).erase()),
        ("filter_map", |o| o.filter_map(|v: i64| if v % 2 == 0 { Some(v / 2) } else { None }).erase()),
        ("take", |o| o.take(2).erase()),
        ("skip", |o| o.skip(1).erase()),
        ("first", |o| o.first().map_error(|_| 77i64).erase()),
        ("find", |o| o.find(|v: &i64| *v == 2).map_error(|_| 78i64).erase()),
        ("element_at", |o| o.element_at(1).map_error(|_| 79i64).erase()),
        ("is_empty", |o| o.is_empty().map(|b: bool| b as i64).erase()),
        ("count", |o| o.count().map(|n: usize| n as i64).erase()),
        ("reduce", |o| o.reduce(|a: &i64, v: i64| a + v, 0i64).erase()),
        ("scan", |o| o.scan(|a: &i64, v: i64| a + v, 0i64).erase()),
        ("enumerate", |o| o.enumerate().map(|(v, i): (i64, usize)| v * 10 + i as i64).erase()),
        ("pairwise", |o| o.pairwise().map(|p: [i64; 2]| p[0] * 10 + p[1]).erase()),
        ("buffer_count", |o| o.buffer_count(2).map(|v: Vec<i64>| v.iter().sum::<i64>() * 10 + v.len() as i64).erase()),
        ("start_with", |o| o.start_with(7).erase()),
        ("end_with", |o| o.end_with(8).erase()),
        ("tap_next", |o| o.tap_next(|_: &i64| ()).erase()),
        ("finalize", |o| o.finalize(|| ()).erase()),
        ("on_next", |o| o.on_next(|v: &i64, d: &mut dyn Subscriber<In = i64, InError = i64>| { if *v == 2 { d.complete(); } *v != 3 }).erase()),
        ("on_subscribe", |o| o.on_subscribe(|d: &mut dyn Subscriber<In = i64, InError = i64>| d.next(9)).erase()),
        ("results", |o| o.into_result().lift_result().erase()),
        ("notifications", |o| o.materialize().dematerialize().erase()),
        ("lift_option", |o| o.map(|v: i64| if v == 2 { None } else { Some(v) }).lift_option().erase()),
        ("catch", |o| o.catch(|e: i64| just(e).map_never::<i64>()).erase()),
        ("concat_map", |o| o.concat_map(|v: i64| (v..v + 2).into_observable().map_never::<i64>(), |e: i64| e).erase()),
        ("merge_map", |o| o.merge_map(|v: i64| (v..v + 2).into_observable().map_never::<i64>(), 3, |e: i64| e).erase()),
        ("switch_map", |o| o.switch_map(|v: i64| (v..v + 2).into_observable().map_never::<i64>(), |e: i64| e).erase()),
        ("exhaust_map", |o| o.exhaust_map(|v: i64| (v..v + 2).into_observable().map_never::<i64>(), |e: i64| e).erase()),
    ]
}
fn stage_source(log: &[Vec<Ev<i64, i64>>], during: &[Ev<i64, i64>], chain: &[Stage]) -> Vec<Vec<Ev<i64, i64>>> {
    let s = Script::with(during.to_vec());
    let h = RecH::new();
    let mut o = chain.iter().fold(s.clone().erase(), |o, st| st.1(o));
    let sub = o.subscribe(h.rec());
    let mut got = vec![h.sig()];
    for evs in log {
        let n = h.sig().len();
        for e in evs {
            if (&s).count() > 0 {
                s.conn(0).offer(e.clone())
            }
        }
        got.push(h.sig()[n..].to_vec());
    }
    drop(sub);
    got
}
/// the operators applied one after the other: every stage alone gets what the stage before it delivered
fn one_by_one(input: &[Ev<i64, i64>], during: usize, chain: &[Stage]) -> Vec<Vec<Ev<i64, i64>>> {
    let mut log = std::iter::once(input[..during].to_vec()).chain(input[during..].iter().map(|e| vec![e.clone()])).collect::<Vec<_>>();
    for st in chain {
        let d = log.remove(0);
        log = stage_source(&log, &d, &[*st]);
    }
    log
}
fn names(c: &[Stage]) -> String {
    c.iter().map(|s| s.0).collect::<Vec<_>>().join(".")
}

fn search(c: &mut Ctx) {
    // wrappers change nothing
    let n = c.rounds(12);
    for it in witems() {
        for w in WS {
            // a clone of an erased observable is the same observable
            let mut r = c.rng(&format!("{}{w:?}", it.name));
            for k in 0..n {
                let steps = random_steps(&mut r, 4 + k % 14);
                let prefix: Vec<Ev<i64, i64>> = (0..r.below(3)).map(|_| Ev::N(r.range(0, 6))).collect();
                c.case(&format!("{w:?}"), &format!("{} {prefix:?} {steps:?}", it.name), || {
                    let want = run(&|e| (it.make)(e, W::Plain), &prefix, &steps, 0);
                    let got = run(&|e| (it.make)(e, w), &prefix, &steps, 0);
                    differ(&steps, got, want)
                });
            }
        }
        // every subscription of a pipeline is like the first of a fresh one
        if it.shared {
            continue;
        }
        let mut r = c.rng(it.name);
        for k in 0..n * 4 {
            let mut steps = random_steps(&mut r, 4 + k % 10);
            steps.retain(|s| !matches!(s, St::Sub(_) | St::Unsub(_) | St::Drop(_) | St::Teardown(_)));
            steps.insert(0, St::Sub(99));
            for s in steps.iter_mut() {
                match s {
                    St::A(i, _) | St::B(i, _) => *i = 0,
                    _ => (),
                }
            }
            c.case("fresh state", &format!("{} {steps:?}", it.name), || {
                let fresh = run(&|e| (it.make)(e, W::Plain), &[], &steps, 2000);
                // the same, after another subscription of the same pipeline went through some of it
                let mut ex = Exec::default();
                let env = Env::new(&ex);
                let mut sub = (it.make)(&env, W::Plain);
                let warm = Out::default();
                let mut s0 = sub(&warm, 99);
                for e in [Ev::N(2), Ev::N(3), Ev::N(1), Ev::N(2)] {
                    env.a.offer_all(e.clone());
                    env.b.offer_all(e);
                }
                if k % 2 == 0 {
                    env.a.offer_all(Ev::C);
                    env.b.offer_all(Ev::C);
                }
                ex.tick(1000);
                s0.unsubscribe();
                ex.tick(1000);
                drop(s0);
                let (na, nb) = ((&env.a).count(), (&env.b).count());
                let out = Out::default();
                let mut held = None;
                let mut seen = vec![];
                for s in &steps {
                    match *s {
                        St::Sub(n) => held = Some(sub(&out, n)),
                        St::A(_, x) if (&env.a).count() > na => env.a.conn(na).offer(ev(x)),
                        St::B(_, x) if (&env.b).count() > nb => env.b.conn(nb).offer(ev(x)),
                        St::Tick(n) => ex.tick(n),
                        _ => (),
                    }
                    let logs = vec![out.get()];
                    let closed = vec![held.as_ref().is_none_or(|s: &AnySub| s.is_closed())];
                    let fins = vec![out.fin.load(Ordering::SeqCst)];
                    seen.push(format!("{logs:?} closed {closed:?} finalized {fins:?} teardowns 0 sources {} of {}, {} of {}", env.a.live(), (&env.a).count() - na, env.b.live(), (&env.b).count() - nb));
                }
                let m = seen.len();
                differ(&steps, seen, fresh[..m].to_vec())
            });
        }
    }
    // chains are their operators one after the other
    let st = stages();
    let ins: Vec<Vec<Ev<i64, i64>>> = inputs(&[1, 2, 4], c.size(2, 3), 5);
    for a in &st {
        for b in &st {
            let chain = [*a, *b];
            for i in &ins {
                for during in [0, i.len()] {
                    c.case("chain", &format!("{} {i:?} {during}", names(&chain)), || {
                        let mut log = std::iter::once(vec![]).collect::<Vec<_>>();
                        log.clear();
                        for e in &i[during..] {
                            log.push(vec![e.clone()])
                        }
                        eq("delivered", stage_source(&log, &i[..during], &chain), one_by_one(i, during, &chain))
                    });
                }
            }
        }
    }
    let mut r = c.rng("chains");
    for _ in 0..c.rounds(6000) {
        let chain: Vec<Stage> = (0..1 + r.below(5)).map(|_| *r.pick(&st)).collect();
        let n = r.below(9);
        let mut i: Vec<Ev<i64, i64>> = (0..n).map(|_| Ev::N(r.range(0, 5))).collect();
        match r.below(3) {
            0 => i.push(Ev::C),
            1 => i.push(Ev::E(5)),
            _ => (),
        }
        let during = r.below(i.len() + 1);
        c.case("chain", &format!("{} {i:?} {during}", names(&chain)), || {
            let log: Vec<Vec<Ev<i64, i64>>> = i[during..].iter().map(|e| vec![e.clone()]).collect();
            eq("delivered", stage_source(&log, &i[..during], &chain), one_by_one(&i, during, &chain))
        });
    }
    composed(c);
    absent(c);
    reentrant(c);
}
/// an operator composed of two is like piping through both
fn composed(c: &mut Ctx) {
    macro_rules! pairs {
        ($($n:literal $($p:ident($($a:expr),*)).+;)*) => { vec![$(
            ($n, (|s: Script<i64, i64>| Box::new(move |h: &RecH<String, String>| {
                let mut o = s.clone()$(.$p($($a),*))+.map(|v| format!("{v:?}")).map_error(|e| format!("{e:?}"));
                Box::new(o.subscribe(h.rec())) as AnySub
            })) as fn(Script<i64, i64>) -> Box<dyn FnMut(&RecH<String, String>) -> AnySub>,
            (|s: Script<i64, i64>| {
                let mut o = Pipe::new(s, compose_operator::<i64, i64>()$(.$p($($a),*))+).map(|v| format!("{v:?}")).map_error(|e| format!("{e:?}"));
                Box::new(move |h: &RecH<String, String>| Box::new(o.subscribe(h.rec())) as AnySub)
            }) as fn(Script<i64, i64>) -> Box<dyn FnMut(&RecH<String, String>) -> AnySub>)
        ),*] };
    }
    let v = pairs! {
        "map" map(|v: i64| v + 1);
        "map.filter" map(|v: i64| v + 1).filter(|v: &i64, i: usize| (v + i as i64) % 2 == 0);
        "filter.take" filter(|v: &i64, _| v % 2 == 0).take(1);
        "take.filter" take(1).filter(|v: &i64, _| v % 2 == 0);
        "skip.take" skip(1).take(2);
        "take.skip" take(2).skip(1);
        "start_with.take" start_with(9).take(2);
        "take.start_with" take(1).start_with(9);
        "end_with.scan" end_with(3).scan(|a: &i64, v: i64| a + v, 0i64);
        "scan.end_with" scan(|a: &i64, v: i64| a + v, 0i64).end_with(3);
        "pairwise.skip" pairwise().skip(1);
        "skip.pairwise" skip(1).pairwise();
        "enumerate.take" enumerate().take(2);
        "take.enumerate" take(2).enumerate();
        "reduce.start_with" reduce(|a: &i64, v: i64| a + v, 0i64).start_with(5);
        "first.map_error" first().map_error(|e| format!("{e:?}"));
        "find.end_with" find(|v: &i64| *v == 2).end_with(1);
        "is_empty.end_with" is_empty().end_with(true);
        "materialize.take" materialize().take(2);
        "take.materialize" take(2).materialize();
        "into_result.skip" into_result().skip(1);
        "skip.buffer_count" skip(1).buffer_count(2);
        "buffer_count.skip" buffer_count(2).skip(1);
        "buffer_count.take" buffer_count(2).take(1);
        "count.start_with" count().start_with(4usize);
        "lift" map(|v: i64| if v == 2 { None } else { Some(v) }).lift_option().count();
    };
    for i in inputs(&[1, 2, 4], c.size(3, 4), 5i64) {
        for (n, piped, comp) in &v {
            for during in 0..=i.len() {
                c.case("composed", &format!("{n} {i:?} {during}"), || {
                    let go = |f: &fn(Script<i64, i64>) -> Box<dyn FnMut(&RecH<String, String>) -> AnySub>| {
                        let s = Script::with(i[..during].to_vec());
                        let mut mk = f(s.clone());
                        let mut all = vec![];
                        let mut held = vec![];
                        for k in 0..2 {
                            let h = RecH::new();
                            held.push(mk(&h));
                            all.push(format!("{:?} {}", h.sig(), s.live()));
                            for e in &i[during..] {
                                if (&s).count() > k {
                                    s.conn(k).offer(e.clone())
                                }
                                all.push(format!("{:?} {} {}", h.sig(), s.live(), held[k].is_closed()));
                            }
                        }
                        all
                    };
                    eq("steps", go(comp), go(piped))
                });
            }
        }
    }
    // the same with sizes far above those
    let v = pairs! {
        "skip(3000)" skip(3000);
        "take(3000)" take(3000);
        "element_at(3000)" element_at(3000);
        "buffer_count(3000)" buffer_count(3000);
        "skip.take(2500)" skip(300).take(2500);
        "buffer_count.skip(2000)" buffer_count(2).skip(2000);
        "enumerate.take(3000)" enumerate().take(3000);
        "pairwise.skip(3000)" pairwise().skip(3000);
    };
    let all: Vec<Ev<i64, i64>> = (0..6000).map(Ev::N).chain([Ev::C]).collect();
    for (n, piped, comp) in &v {
        for during in [0, 6001] {
            c.case("composed", &format!("{n} 0..6000 {during}"), || {
                let go = |f: &fn(Script<i64, i64>) -> Box<dyn FnMut(&RecH<String, String>) -> AnySub>| {
                    let s = Script::with(all[..during].to_vec());
                    let h = RecH::new();
                    let held = f(s.clone())(&h);
                    for e in &all[during..] {
                        if (&s).count() > 0 {
                            s.conn(0).offer(e.clone())
                        }
                    }
                    let r = (h.sig(), s.live(), held.is_closed());
                    r
                };
                let (a, b) = (go(comp), go(piped));
                ensure(a == b, &format!("composed: {} signals, piped: {}, first difference at {:?}", a.0.len(), b.0.len(), a.0.iter().zip(&b.0).position(|(x, y)| x != y)))
            });
        }
    }
}
/// an erased observable subscribed to from inside a delivery made while it is being subscribed to
fn reentrant(c: &mut Ctx) {
    for n in 1..4i64 {
        c.case("reentrant subscribe to an erased observable", &format!("{n}"), || {
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let e = (0..n).into_observable().map_never::<i64>().erase();
                let inner = e.clone();
                let h = RecH::<i64, i64>::new();
                let _s = e.concat_map(move |_: i64| inner.clone(), |x: i64| x).subscribe(h.rec());
                let _ = tx.send(h.sig());
            });
            let want: Vec<Ev<i64, i64>> = (0..n).flat_map(|_| (0..n).map(Ev::N)).chain([Ev::C]).collect();
            match rx.recv_timeout(Duration::from_secs(3)) {
                Ok(got) => eq("delivered", got, want),
                Err(_) => Err("never returns".into()),
            }
        });
    }
}
/// what holds nothing: closed, delivers nothing, runs what is added at once
fn absent(c: &mut Ctx) {
    c.case("absent", "observable", || {
        let h = RecH::<i64, i64>::new();
        let mut s = None::<Script<i64, i64>>.subscribe(h.rec());
        let n = Arc::new(AtomicUsize::new(0));
        let m = n.clone();
        ensure(s.is_closed(), "subscription not closed")?;
        s.add_teardown(Teardown::new(move || {
            m.fetch_add(1, Ordering::SeqCst);
        }));
        eq("teardowns run", n.load(Ordering::SeqCst), 1)?;
        s.unsubscribe();
        eq("values", h.vals(), vec![])?;
        eq("teardowns run", n.load(Ordering::SeqCst), 1)
    });
    c.case("absent", "destination", || {
        let mut d = None::<ErasedSubscriber<i64, i64>>;
        let n = Arc::new(AtomicUsize::new(0));
        let m = n.clone();
        ensure(d.is_closed(), "not closed")?;
        RxObserver::next(&mut d, 1);
        RxObserver::complete(&mut d);
        TeardownCollection::add_teardown(&mut d, Teardown::new(move || {
            m.fetch_add(1, Ordering::SeqCst);
        }));
        SubscriptionLike::unsubscribe(&mut d);
        eq("teardowns run", n.load(Ordering::SeqCst), 1)
    });
    // a present one gets exactly the calls made
    for i in inputs(&[1, 2], 3, 5i64) {
        c.case("present", &format!("{i:?}"), || {
            let h = RecH::<i64, i64>::new();
            let mut d = Some(ErasedSubscriber::new(h.rec().upgrade()));
            for e in &i {
                match e.clone() {
                    Ev::N(v) => RxObserver::next(&mut d, v),
                    Ev::E(v) => RxObserver::error(&mut d, v),
                    Ev::C => RxObserver::complete(&mut d),
                    Ev::U => SubscriptionLike::unsubscribe(&mut d),
                }
                eq("closed", SubscriptionLike::is_closed(&d), h.closed())?;
            }
            eq("signals", h.sig(), i.iter().filter(|e| **e != Ev::U).cloned().collect::<Vec<_>>())
        });
    }
}
fn main() {
    main_with(search)
}
