//! operators and timed sources used again from within the teardowns of their sources and from within
//! deliveries: nothing blocks, and every teardown of a source that was subscribed to runs
use crate::cat::{Exec, Hnd, TCtx, ms};
use crate::prelude::*;
use rx_core::prelude::*;
use rx_core_scheduler_ticking::Tick;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

type S = PublishSubject<i64, i64>;
/// called with its place from every teardown (and, for the timed ones, every delivery)
type Fire = Arc<dyn Fn(usize) + Send + Sync>;
#[derive(Clone)]
struct Seen {
    fire: Fire,
    subscribed: Arc<AtomicUsize>,
    torn: Arc<AtomicUsize>,
}
type Slot = Arc<Mutex<Option<SharedSubscription>>>;
type Mk = fn(S, Vec<S>, Seen, RecH<i64, i64>) -> SharedSubscription;
type TimedMk = fn(S, Hnd, Seen, RecH<i64, i64>) -> SharedSubscription;

fn fin<O: Observable<Out = i64, OutError = i64> + Clone + Send + Sync + 'static>(s: O, f: &Seen, k: usize) -> impl Observable<Out = i64, OutError = i64> + Clone + Send + Sync + use<O> {
    let (f, n) = (f.clone(), f.subscribed.clone());
    s.finalize(move || {
        f.torn.fetch_add(1, SeqCst);
        (f.fire)(k)
    })
    .on_subscribe(move |_: &mut dyn Subscriber<In = i64, InError = i64>| {
        n.fetch_add(1, SeqCst);
    })
}
/// the same for one that is not `Clone`
fn once<O: Observable<Out = i64, OutError = i64> + Send + Sync + 'static>(s: O, f: &Seen) -> impl Observable<Out = i64, OutError = i64> + Send + Sync + use<O> {
    let (f, n) = (f.clone(), f.subscribed.clone());
    s.finalize(move || {
        f.torn.fetch_add(1, SeqCst);
        (f.fire)(0)
    })
    .on_subscribe(move |_: &mut dyn Subscriber<In = i64, InError = i64>| {
        n.fetch_add(1, SeqCst);
    })
}
fn inner(i: &[S], f: &Seen) -> impl Fn(i64) -> ErasedObservable<i64, i64> + Send + Sync + Clone + 'static + use<> {
    let (i, f) = (i.to_vec(), f.clone());
    move |k: i64| fin(i[(k as usize).min(2)].clone(), &f, k as usize).erase()
}
macro_rules! m {
    ($o:ident, $i:ident, $f:ident, $e:expr) => {
        (|$o: S, $i: Vec<S>, $f: Seen, h: RecH<i64, i64>| {
            let _ = &$i;
            let mut x = $e;
            SharedSubscription::new(x.subscribe(h.rec()))
        }) as Mk
    };
}
macro_rules! t {
    ($o:ident, $i:ident, $f:ident, $e:expr) => {
        (|$o: S, $i: Hnd, $f: Seen, h: RecH<i64, i64>| {
            let _ = &$o;
            let (f1, f2) = ($f.fire.clone(), $f.fire.clone());
            let mut x = $e.finalize(move || f1(0)).tap_next(move |_| f2(1));
            SharedSubscription::new(x.subscribe(h.rec()))
        }) as TimedMk
    };
}
const ACTS: [&str; 9] = ["o.next", "i0.complete", "i0.error", "o.complete", "o.error", "unsubscribe", "i0.unsubscribe", "o.unsubscribe", "i0.next"];
const WITHIN: [&str; 8] = ["o.next", "o.complete", "o.error", "i0.next", "i1.next", "unsubscribe", "is_closed", "add"];

fn ends(f: impl FnOnce() -> Result<(), String> + Send + 'static) -> Result<(), String> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(Duration::from_secs(5)).map_err(|e| format!("never returns ({e})"))?
}
fn seen(fire: Fire) -> Seen {
    Seen { fire, subscribed: Default::default(), torn: Default::default() }
}
fn plain(n: &'static str, mk: Mk, a: usize, b: usize) -> Result<(), String> {
    ends(move || {
        let o = S::default();
        let i = vec![S::default(), S::default(), S::default()];
        let slot: Slot = Default::default();
        let armed = Arc::new(AtomicUsize::new(0));
        let f: Fire = {
            let (o, i, slot, armed) = (o.clone(), i.clone(), slot.clone(), armed.clone());
            Arc::new(move |_| {
                if armed.swap(0, SeqCst) == 0 {
                    return;
                }
                let (mut o, mut i0, mut i1) = (o.clone(), i[0].clone(), i[1].clone());
                let s = lk(&slot).clone();
                match (b, s) {
                    (0, _) => o.next(2),
                    (1, _) => o.complete(),
                    (2, _) => o.error(3),
                    (3, _) => i0.next(8),
                    (4, _) => i1.next(9),
                    (5, Some(mut s)) => s.unsubscribe(),
                    (6, Some(s)) => {
                        let _ = s.is_closed();
                    }
                    (_, Some(mut s)) => s.add_fn(|| ()),
                    _ => {}
                }
            })
        };
        let all = seen(f);
        let h = RecH::new();
        let mut s = mk(o.clone(), i.clone(), all.clone(), h.clone());
        *lk(&slot) = Some(s.clone());
        let (mut o, mut i0) = (o, i[0].clone());
        match n {
            "catch" => o.error(0),
            "concat" => o.complete(),
            _ => o.next(0),
        }
        i0.next(5);
        armed.store(1, SeqCst);
        match a {
            0 => o.next(1),
            1 => i0.complete(),
            2 => i0.error(4),
            3 => o.complete(),
            4 => o.error(6),
            5 => s.unsubscribe(),
            6 => i0.unsubscribe(),
            7 => o.unsubscribe(),
            _ => i0.next(6),
        }
        armed.store(0, SeqCst);
        s.unsubscribe();
        eq("sources torn down", all.torn.load(SeqCst), all.subscribed.load(SeqCst))?;
        ensure(s.is_closed(), "not closed")
    })
}
const TIMED: [&str; 9] = ["next", "complete", "error", "unsubscribe", "is_closed", "add", "schedule", "source unsubscribe", "drop"];
fn timed(mk: TimedMk, at: usize, a: usize, b: usize, skip: usize) -> Result<(), String> {
    ends(move || {
        let mut ex = Exec::default();
        let (o, hd) = (S::default(), ex.handle());
        let slot: Slot = Default::default();
        let left = Arc::new(AtomicUsize::new(skip + 1));
        let f: Fire = {
            let (o, slot, hd) = (o.clone(), slot.clone(), hd.clone());
            Arc::new(move |k| {
                if k != at || left.load(SeqCst) == 0 || left.fetch_sub(1, SeqCst) != 1 {
                    return;
                }
                let mut o = o.clone();
                let s = lk(&slot).clone();
                match (b, s) {
                    (0, _) => o.next(2),
                    (1, _) => o.complete(),
                    (2, _) => o.error(3),
                    (3, Some(mut s)) => s.unsubscribe(),
                    (4, Some(s)) => {
                        let _ = s.is_closed();
                    }
                    (5, Some(mut s)) => s.add_fn(|| ()),
                    (6, _) => {
                        let mut g = hd.lock();
                        let id = g.generate_cancellation_id();
                        g.schedule_immediate_work(|_, _| (), id);
                    }
                    (7, _) => o.unsubscribe(),
                    _ => {
                        let s = lk(&slot).take();
                        drop(s)
                    }
                }
            })
        };
        let all = seen(f);
        let h = RecH::new();
        let s = mk(o.clone(), hd.clone(), all.clone(), h.clone());
        *lk(&slot) = Some(s.clone());
        let mut o = o;
        let mut s = if b == 8 { None } else { Some(s) };
        ex.tick(1);
        for (v, d) in [(1, 0), (2, 10), (3, 4), (4, 7)] {
            o.next(v);
            if d > 0 {
                ex.tick(d)
            }
        }
        match a {
            0 => o.complete(),
            1 => o.error(4),
            2 => {
                if let Some(s) = &mut s {
                    s.unsubscribe()
                }
            }
            _ => {
                drop(s.take());
                let x = lk(&slot).take();
                drop(x)
            }
        }
        for d in [10, 20, 1] {
            ex.tick(d)
        }
        if let Some(s) = &mut s {
            s.unsubscribe()
        }
        let x = lk(&slot).take();
        if let Some(mut x) = x {
            x.unsubscribe()
        }
        drop(s);
        ex.tick(1);
        // a handle that is dropped does not end what others may still hold
        if a == 3 || b == 8 {
            return Ok(());
        }
        eq("sources torn down", all.torn.load(SeqCst), all.subscribed.load(SeqCst))
    })
}
pub fn search(c: &mut Ctx) {
    use ThrottleOutputBehavior::*;
    let ops: Vec<(&'static str, Mk)> = vec![
        ("switch_map", m!(o, i, f, { let g = inner(&i, &f); fin(o, &f, 9).switch_map(move |k: i64| g(k), |e: i64| e) })),
        ("exhaust_map", m!(o, i, f, { let g = inner(&i, &f); fin(o, &f, 9).exhaust_map(move |k: i64| g(k), |e: i64| e) })),
        ("concat_map", m!(o, i, f, { let g = inner(&i, &f); fin(o, &f, 9).concat_map(move |k: i64| g(k), |e: i64| e) })),
        ("merge_map", m!(o, i, f, { let g = inner(&i, &f); fin(o, &f, 9).merge_map(move |k: i64| g(k), 2, |e: i64| e) })),
        ("catch", m!(o, i, f, { let g = inner(&i, &f); fin(o, &f, 9).catch(move |k: i64| g(k)) })),
        ("retry", m!(o, i, f, fin(o, &f, 0).retry(2))),
        ("combine_latest", m!(o, i, f, combine_latest(fin(o, &f, 9), fin(i[0].clone(), &f, 0)).map(|(a, b)| a * 10 + b).map_error(|_| 7))),
        ("combine_changes", m!(o, i, f, combine_changes(fin(o, &f, 9), fin(i[0].clone(), &f, 0)).map(|_| 1).map_error(|_| 7))),
        ("zip", m!(o, i, f, zip(fin(o, &f, 9), fin(i[0].clone(), &f, 0)).map(|(a, b)| a * 10 + b).map_error(|_| 7))),
        ("join", m!(o, i, f, join(fin(o, &f, 9), fin(i[0].clone(), &f, 0)).map(|(a, b)| a * 10 + b).map_error(|_| 7))),
        ("with_latest_from", m!(o, i, f, fin(o, &f, 9).with_latest_from(fin(i[0].clone(), &f, 0)).map(|(a, b)| a * 10 + b))),
        ("take", m!(o, i, f, fin(o, &f, 0).take(2))),
        ("share", m!(o, i, f, fin(o, &f, 0).share(ConnectableOptions { connector_provider: S::default, disconnect_when_ref_count_zero: true, reset_connector_on_disconnect: true, reset_connector_on_complete: true, reset_connector_on_error: true }))),
        ("merge", m!(o, i, f, merge((fin(o, &f, 9).erase(), fin(i[0].clone(), &f, 0).erase()), 2))),
        ("concat", m!(o, i, f, concat((fin(o, &f, 9).erase(), fin(i[0].clone(), &f, 0).erase())))),
    ];
    for (n, mk) in ops {
        for a in 0..ACTS.len() {
            for b in 0..WITHIN.len() {
                c.case("used from within a teardown", &format!("{n}: {} within {}", WITHIN[b], ACTS[a]), || plain(n, mk, a, b));
            }
        }
    }
    let ops: Vec<(&'static str, TimedMk)> = vec![
        ("delay", t!(o, i, f, fin(o, &f, 0).delay(ms(10), i))),
        ("debounce_time", t!(o, i, f, fin(o, &f, 0).debounce_time(ms(10), i))),
        ("throttle_time", t!(o, i, f, fin(o, &f, 0).throttle_time(ThrottleTimeOptions::new(ms(10)).with_output(LeadingAndTrailing), i))),
        ("observe_on", t!(o, i, f, fin(o, &f, 0).observe_on(i))),
        ("subscribe_on", t!(o, i, f, fin(o, &f, 0).subscribe_on(i))),
        ("fallback_when_silent", t!(o, i, f, fin(o, &f, 0).fallback_when_silent(|_: Tick, _: &mut TCtx, n: usize| n as i64, i))),
        ("interval", t!(o, i, f, once(interval(IntervalObservableOptions { duration: ms(10), start_on_subscribe: false, max_emissions_per_tick: 3 }, i).map(|x| x as i64).map_never::<i64>(), &f).take(2))),
        ("timer", t!(o, i, f, once(timer(ms(10), i).map(|_| 1i64).map_never::<i64>(), &f))),
        ("on every tick", t!(o, i, f, once((0..4i64).into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: true, emit_at_every_nth_tick: 1 }, i).map_never::<i64>(), &f))),
    ];
    for (n, mk) in ops {
        for at in 0..2 {
            for a in 0..4 {
                for (b, bn) in TIMED.iter().enumerate() {
                    for skip in 0..3 {
                        c.case("used from within a teardown or delivery in a tick", &format!("{n}: {bn} within {} {skip}, then end {a}", ["teardown", "delivery"][at]), || timed(mk, at, a, b, skip));
                    }
                }
            }
        }
    }
}
