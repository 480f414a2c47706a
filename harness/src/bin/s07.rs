use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vh::cat::*;
use vh::prelude::*;

#[derive(Clone, Debug, PartialEq)]
enum St {
    A(IEv),
    B(IEv),
    /// the scripted sources keep sending, whatever their subscriber said
    T(u64),
    Unsub,
    Drop,
}
use St::*;

struct Run {
    out: Out,
    env: Env,
    ex: Exec,
    sub: Arc<Mutex<Option<AnySub>>>,
    torn: Arc<AtomicUsize>,
}
fn start(it: &Item, pre: &[IEv]) -> Run {
    let ex = Exec::default();
    let env = Env::new(&ex);
    *lk(&env.a.default_prefix) = pre.to_vec();
    let out = Out::default();
    let mut s = (it.make)(&env);
    let mut sub = s(&out);
    let torn = Arc::new(AtomicUsize::new(0));
    let t = torn.clone();
    sub.add_teardown(Teardown::new(move || {
        t.fetch_add(1, SeqCst);
    }));
    Run { out, env, ex, sub: Arc::new(Mutex::new(Some(sub))), torn }
}
fn step(r: &mut Run, s: &St) {
    match s {
        A(e) => r.env.a.offer_all(e.clone()),
        B(e) => r.env.b.offer_all(e.clone()),
        T(n) => r.ex.tick(*n),
        Unsub => {
            if let Some(s) = lk(&r.sub).as_mut() {
                s.unsubscribe()
            }
        }
        Drop => {
            let s = lk(&r.sub).take();
            drop(s)
        }
    }
}
fn ended(log: &[SEv]) -> Option<usize> {
    log.iter().position(|e| e.term())
}
#[derive(Clone, Copy, PartialEq)]
enum Cl {
    Signals,
    Closed,
    Teardown,
    Release,
}
const CLS: [(&str, Cl); 4] = [("signals", Cl::Signals), ("closedness", Cl::Closed), ("teardown", Cl::Teardown), ("release", Cl::Release)];
fn check_steps(it: &Item, cl: Cl, pre: &[IEv], steps: &[St]) -> Result<(), String> {
    let mut r = start(it, pre);
    let mut over: Option<usize> = None; // the log may not grow past this
    let mut over_why = "";
    for (i, s) in std::iter::once(&T(0)).chain(steps.iter()).enumerate() {
        let before = r.out.get();
        let was_closed = lk(&r.sub).as_ref().is_none_or(|s| s.is_closed());
        step(&mut r, s);
        let log = r.out.get();
        if cl == Cl::Signals {
            if let Some(n) = over {
                ensure(log.len() == n, format!("step {i} {s:?}: received {:?} after {over_why}", &log[n.min(log.len())..]))?;
            }
            if let Some(p) = ended(&log) {
                ensure(p + 1 == log.len(), format!("step {i} {s:?}: received {:?} after the terminal signal; whole log {log:?}", &log[p + 1..]))?;
            }
            if matches!(s, Unsub | Drop) && log.len() != before.len() {
                return Err(format!("step {i} {s:?} delivered {:?}", &log[before.len()..]));
            }
        }
        if cl == Cl::Closed && was_closed && !it.drains {
            ensure(log.len() == before.len(), format!("step {i} {s:?}: received {:?} though the subscription said it was closed", &log[before.len()..]))?;
        }
        if ended(&log).is_some() && over.is_none() {
            over = Some(log.len());
            over_why = "the terminal signal";
        }
        if matches!(s, Unsub | Drop) {
            over = Some(log.len());
            over_why = "the unsubscription";
        }
        let closed = lk(&r.sub).as_ref().is_none_or(|s| s.is_closed());
        if cl == Cl::Closed {
            if over.is_some() {
                ensure(closed, format!("step {i} {s:?}: the subscription does not report to be closed after {over_why}"))?;
            }
            if was_closed {
                ensure(closed, format!("step {i} {s:?}: the subscription reopened"))?;
            }
        }
        if cl == Cl::Teardown {
            let n = r.torn.load(SeqCst);
            let want = if over.is_some() { 1 } else { 0 };
            let m = r.out.fin.load(SeqCst);
            ensure(m == want || (m == 1 && closed), format!("step {i} {s:?}: downstream finalizer executed {m} times ({})", if over_why.is_empty() { "not ended" } else { over_why }))?;
            ensure(n == want || (n == 1 && closed), format!("step {i} {s:?}: teardown executed {n} times ({})", if over_why.is_empty() { "not ended" } else { over_why }))?;
        }
        if cl == Cl::Release && over.is_some() && !it.shared {
            ensure(r.env.a.live() == 0, format!("step {i} {s:?}: a source is still subscribed after {over_why}"))?;
            ensure(r.env.b.live() == 0, format!("step {i} {s:?}: an inner source is still subscribed after {over_why}"))?;
        }
    }
    Ok(())
}
fn run(c: &mut vh::Ctx, it: &Item, what: &str, i: &str, pre: &[IEv], s: &[St]) {
    if s.contains(&Drop) {
        c.case(what, i, || CLS.iter().try_for_each(|(_, cl)| check_steps(it, *cl, pre, s)));
    } else {
        for (w, cl) in CLS {
            c.case(&format!("{what}: {w}"), i, || check_steps(it, cl, pre, s));
        }
    }
}
/// every wrapper, driven directly with any history, well-formed or not
fn wrapped(k: usize, o: &Out) -> Box<dyn Subscriber<In = i64, InError = i64> + Send + Sync> {
    let s = o.obs::<i64, i64>().upgrade();
    match k {
        0 => Box::new(s),
        1 => Box::new(ErasedSubscriber::new(s)),
        2 => Box::new(Box::new(s) as Box<dyn Subscriber<In = i64, InError = i64> + Send + Sync>),
        3 => Box::new(SharedSubscriber::new(s)),
        4 => Box::new(Arc::new(Mutex::new(s))),
        5 => Box::new(Arc::new(std::sync::RwLock::new(s))),
        _ => Box::new(SharedSubscriber::new(ErasedSubscriber::new(SharedSubscriber::new(s)))),
    }
}
const WRAPS: [&str; 7] = ["ObserverSubscriber", "ErasedSubscriber", "Box<dyn _>", "SharedSubscriber", "Arc<Mutex<_>>", "Arc<RwLock<_>>", "Shared<Erased<Shared<_>>>"];
fn direct(k: usize, h: &[IEv]) -> Result<(), String> {
    let o = Out::default();
    let torn = Arc::new(AtomicUsize::new(0));
    let mut w = wrapped(k, &o);
    let t = torn.clone();
    w.add_teardown(Teardown::new(move || {
        t.fetch_add(1, SeqCst);
    }));
    let mut want: Vec<SEv> = vec![];
    let mut closed = false;
    for (i, e) in h.iter().enumerate() {
        match e {
            Ev::N(x) => w.next(*x),
            Ev::E(x) => w.error(*x),
            Ev::C => w.complete(),
            Ev::U => w.unsubscribe(),
        }
        if !closed {
            match e {
                Ev::N(x) => want.push(Ev::N(x.to_string())),
                Ev::E(x) => want.push(Ev::E(x.to_string())),
                Ev::C => want.push(Ev::C),
                Ev::U => {}
            }
            closed = e.term();
        }
        eq(&format!("signals after step {i}"), o.get(), want.clone())?;
        eq(&format!("closed after step {i}"), w.is_closed(), closed)?;
        eq(&format!("teardowns after step {i}"), torn.load(SeqCst), closed as usize)?;
    }
    drop(w);
    eq("signals after dropping", o.get(), want)?;
    if k < 3 {
        eq("teardowns after dropping", torn.load(SeqCst), 1)?;
    }
    Ok(())
}
fn main() {
    main_with(|c| {
        let al: Vec<IEv> = vec![Ev::N(1), Ev::E(2), Ev::C, Ev::U];
        let n = c.size(5, 7);
        for k in 0..WRAPS.len() {
            for h in seqs(&al, n) {
                c.case(&format!("{}: any history", WRAPS[k]), &format!("{h:?}"), || direct(k, &h));
            }
        }
        let its = items();
        let al: Vec<St> = vec![A(Ev::N(0)), A(Ev::N(1)), A(Ev::N(2)), A(Ev::E(4)), A(Ev::C), B(Ev::N(3)), B(Ev::E(6)), B(Ev::C), T(10), T(25), Unsub, Drop];
        let len = c.size(3, 4);
        for it in &its {
            for s in seqs(&al, len) {
                let dr = s.iter().position(|x| matches!(x, Drop));
                if dr.is_some_and(|p| s[p + 1..].iter().any(|x| matches!(x, Drop | Unsub))) {
                    continue;
                }
                if it.drains && s.iter().any(|x| matches!(x, Drop | Unsub)) {
                    continue;
                }
                let what = format!("{}: {}", it.name, if dr.is_some() { "dropped subscription" } else { "history" });
                let mut s = s;
                s.extend([A(Ev::N(5)), T(30), A(Ev::C), B(Ev::C), T(50)]);
                let i = format!("{s:?}");
                run(c, it, &what, &i, &[], &s);
            }
            let ev: Vec<IEv> = vec![Ev::N(1), Ev::N(2), Ev::E(4), Ev::C];
            for p in seqs(&ev, 3) {
                if p.iter().position(|e| e.term()).is_some_and(|k| k + 1 < p.len()) {
                    continue;
                }
                for s in [vec![], vec![Unsub], vec![Drop]] {
                    if it.drains && !s.is_empty() {
                        continue;
                    }
                    let what = format!("{}: {}", it.name, if s == [Drop] { "dropped subscription" } else { "signals while subscribing" });
                    let mut s: Vec<St> = s;
                    s.extend([A(Ev::N(5)), T(30), A(Ev::C), B(Ev::C), T(50)]);
                    let i = format!("{p:?} then {s:?}");
                    run(c, it, &what, &i, &p, &s);
                }
            }
        }
    });
}
