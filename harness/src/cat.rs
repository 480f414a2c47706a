//! A catalogue of every operator and observable, all built over the same scripted sources and the
//! same executor, delivering into a plain recorder of formatted signals.
use crate::*;
use rx_core::prelude::*;
use rx_core_scheduler_ticking::*;
use std::time::Duration;

pub struct TCtxP;
impl WorkContextProvider for TCtxP {
    type Item<'c> = TCtx;
}
pub struct TCtx;
impl WorkContext<'_> for TCtx {}
pub type Sch = TickingScheduler<TCtxP>;
pub type Hnd = SchedulerHandle<Sch>;
pub struct Exec(pub TickingSchedulerExecutor<Sch, TCtxP>);
impl Default for Exec {
    fn default() -> Self {
        Exec(TickingSchedulerExecutor::new(TickingScheduler::default()))
    }
}
impl Exec {
    pub fn handle(&self) -> Hnd {
        self.0.get_scheduler_handle()
    }
    pub fn tick(&mut self, ms: u64) {
        self.0.tick(Duration::from_millis(ms), &mut TCtx)
    }
    pub fn tick_d(&mut self, d: Duration) {
        self.0.tick(d, &mut TCtx)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

pub type SEv = Ev<String, String>;
/// plain observer: formats everything it gets, checks nothing
pub struct Fmt<T, E> {
    pub log: Arc<Mutex<Vec<SEv>>>,
    pub hook: Arc<Mutex<Option<Box<dyn FnMut(usize) + Send + Sync>>>>,
    _p: std::marker::PhantomData<fn(T, E)>,
}
impl<T, E> Fmt<T, E> {
    fn put(&self, e: SEv) {
        let n = {
            let mut g = lk(&self.log);
            g.push(e);
            g.len() - 1
        };
        let h = lk(&self.hook).take();
        if let Some(mut f) = h {
            f(n);
            let mut g = lk(&self.hook);
            if g.is_none() {
                *g = Some(f)
            }
        }
    }
}
impl<T: Signal, E: Signal> ObserverInput for Fmt<T, E> {
    type In = T;
    type InError = E;
}
impl<T: Signal + Debug, E: Signal + Debug> RxObserver for Fmt<T, E> {
    fn next(&mut self, n: T) {
        self.put(Ev::N(format!("{n:?}")))
    }
    fn error(&mut self, e: E) {
        self.put(Ev::E(format!("{e:?}")))
    }
    fn complete(&mut self) {
        self.put(Ev::C)
    }
}
impl<T: Signal, E: Signal> WithPrimaryCategory for Fmt<T, E> {
    type PrimaryCategory = PrimaryCategoryObserver;
}
impl<T: Signal + Debug, E: Signal + Debug> UpgradeableObserver for Fmt<T, E> {
    type Upgraded = ObserverSubscriber<Self>;
    fn upgrade(self) -> Self::Upgraded {
        ObserverSubscriber::new(self)
    }
}
#[derive(Clone, Default)]
pub struct Out {
    pub log: Arc<Mutex<Vec<SEv>>>,
    pub hook: Arc<Mutex<Option<Box<dyn FnMut(usize) + Send + Sync>>>>,
    /// executions of a finalizer placed below everything else
    pub fin: Arc<AtomicUsize>,
}
impl Out {
    pub fn obs<T, E>(&self) -> Fmt<T, E> {
        Fmt { log: self.log.clone(), hook: self.hook.clone(), _p: Default::default() }
    }
    pub fn get(&self) -> Vec<SEv> {
        lk(&self.log).clone()
    }
}
#[derive(Clone)]
pub struct Env {
    pub a: Script<i64, i64>,
    pub b: Script<i64, i64>,
    pub h: Hnd,
}
impl Env {
    pub fn new(ex: &Exec) -> Self {
        Env { a: Script::new(), b: Script::new(), h: ex.handle() }
    }
}
pub type AnySub = Box<dyn SubscriptionWithTeardown + Send + Sync>;
/// builds the observable and returns a function subscribing to it
pub type Subber = Box<dyn FnMut(&Out) -> AnySub>;
pub struct Item {
    pub name: &'static str,
    pub make: fn(&Env) -> Subber,
    /// the scheduler is involved: signals can come on a tick
    pub timed: bool,
    /// the sources' subscriptions are shared between subscribers, and may outlive one of them
    pub shared: bool,
    /// documented to let already accepted values through before an unsubscription takes effect
    pub drains: bool,
}
pub fn subber<O>(mut o: O) -> Subber
where
    O: Observable + Send + Sync + 'static,
    O::Out: Debug,
    O::OutError: Debug,
{
    Box::new(move |out: &Out| {
        let f = out.fin.clone();
        let mut fin = rx_core::operator::FinalizeOperator::<O::Out, O::OutError, _>::new(move || {
            f.fetch_add(1, Ordering::SeqCst);
        });
        let d = fin.operator_subscribe(out.obs().upgrade());
        Box::new(o.subscribe(d)) as AnySub
    })
}
pub fn inner(e: &Env) -> impl Fn(i64) -> ErasedObservable<i64, i64> + Clone + Send + Sync + 'static {
    let b = e.b.clone();
    move |v| if v % 3 == 0 { b.clone().erase() } else if v % 3 == 1 { just(v * 10).map_never::<i64>().erase() } else { b.clone().map(move |w: i64| w + v * 100).erase() }
}
/// the catalogue, given to a macro taking `name timed shared |env| observable;` entries
#[macro_export]
macro_rules! catalogue {
    ($m:ident) => { $m! {
        "pass" false false |e| e.a.clone();
        "erase" false false |e| e.a.clone().erase();
        "map" false false |e| e.a.clone().map(|v: i64| v + 1);
        "map_error" false false |e| e.a.clone().map_error(|v: i64| v + 1);
        "map_into" false false |e| e.a.clone().map_into::<i128, i128>();
        "filter" false false |e| e.a.clone().filter(|v: &i64, _| v % 2 == 0);
        "filter_map" false false |e| e.a.clone().filter_map(|v: i64| if v % 2 == 0 { Some(v) } else { None });
        "take(2)" false false |e| e.a.clone().take(2);
        "take(0)" false false |e| e.a.clone().take(0);
        "skip(1)" false false |e| e.a.clone().skip(1);
        "first" false false |e| e.a.clone().first();
        "find" false false |e| e.a.clone().find(|v: &i64| *v == 2);
        "find_index" false false |e| e.a.clone().find_index(|v: &i64| *v == 2);
        "element_at" false false |e| e.a.clone().element_at(1);
        "is_empty" false false |e| e.a.clone().is_empty();
        "count" false false |e| e.a.clone().count();
        "reduce" false false |e| e.a.clone().reduce(|a: &i64, v: i64| a + v, 0i64);
        "scan" false false |e| e.a.clone().scan(|a: &i64, v: i64| a + v, 0i64);
        "enumerate" false false |e| e.a.clone().enumerate();
        "pairwise" false false |e| e.a.clone().pairwise();
        "buffer_count" false false |e| e.a.clone().buffer_count(2);
        "start_with" false false |e| e.a.clone().start_with(7);
        "end_with" false false |e| e.a.clone().end_with(7);
        "tap_next" false false |e| e.a.clone().tap_next(|_: &i64| ());
        "finalize" false false |e| e.a.clone().finalize(|| ());
        "on_next" false false |e| e.a.clone().on_next(|v: &i64, d: &mut dyn Subscriber<In = i64, InError = i64>| { if *v == 2 { d.complete(); } *v != 3 });
        "on_subscribe" false false |e| e.a.clone().on_subscribe(|d: &mut dyn Subscriber<In = i64, InError = i64>| d.next(9));
        "into_result" false false |e| e.a.clone().into_result();
        "into_result+lift_result" false false |e| e.a.clone().into_result().lift_result();
        "lift_option" false false |e| e.a.clone().map(|v: i64| if v == 2 { None } else { Some(v) }).lift_option();
        "materialize" false false |e| e.a.clone().materialize();
        "materialize+dematerialize" false false |e| e.a.clone().materialize().dematerialize();
        "catch" false false |e| { let b = e.b.clone(); e.a.clone().catch(move |_: i64| b.clone()) };
        "retry(2)" false false |e| e.a.clone().retry(2);
        "with_latest_from" false false |e| e.a.clone().with_latest_from(e.b.clone());
        "combine_latest" false false |e| combine_latest(e.a.clone(), e.b.clone());
        "combine_changes" false false |e| combine_changes(e.a.clone(), e.b.clone());
        "zip" false false |e| zip(e.a.clone(), e.b.clone());
        "join" false false |e| join(e.a.clone(), e.b.clone());
        "merge" false false |e| merge((e.a.clone(), e.b.clone()), usize::MAX);
        "merge(1)" false false |e| merge((e.a.clone(), e.b.clone()), 1);
        "concat" false false |e| concat((e.a.clone(), e.b.clone()));
        "merge_map" false false |e| e.a.clone().merge_map(inner(e), 2, |x: i64| x);
        "concat_map" false false |e| e.a.clone().concat_map(inner(e), |x: i64| x);
        "switch_map" false false |e| e.a.clone().switch_map(inner(e), |x: i64| x);
        "exhaust_map" false false |e| e.a.clone().exhaust_map(inner(e), |x: i64| x);
        "merge_all" false false |e| e.a.clone().map(inner(e)).merge_all(2, |x: i64| x);
        "concat_all" false false |e| e.a.clone().map(inner(e)).concat_all(|x: i64| x);
        "switch_all" false false |e| e.a.clone().map(inner(e)).switch_all(|x: i64| x);
        "exhaust_all" false false |e| e.a.clone().map(inner(e)).exhaust_all(|x: i64| x);
        "delay" true false |e| e.a.clone().delay(ms(10), e.h.clone());
        "debounce_time" true false |e| e.a.clone().debounce_time(ms(10), e.h.clone());
        "throttle_time" true false |e| e.a.clone().throttle_time(ThrottleTimeOptions::new(ms(10)), e.h.clone());
        "observe_on" true false |e| e.a.clone().observe_on(e.h.clone());
        "subscribe_on" true false |e| e.a.clone().subscribe_on(e.h.clone());
        "subscribe_on_with_delay" true false |e| e.a.clone().subscribe_on_with_delay(ms(10), e.h.clone());
        "fallback_when_silent" true false |e| e.a.clone().fallback_when_silent(|_: Tick, _: &mut TCtx, n: usize| 1000 + n as i64, e.h.clone());
        "adsr" true false |e| e.a.clone().map(|v: i64| AdsrTrigger::from(v % 2 == 0)).adsr(AdsrOperatorOptions::default(), e.h.clone());
        "interval" true false |e| interval(IntervalObservableOptions { duration: ms(10), ..Default::default() }, e.h.clone()).map_never::<i64>().take(3);
        "timer" true false |e| timer(ms(10), e.h.clone());
        "on_tick" true false |e| (0..3i64).into_observable_on_every_nth_tick(OnTickObservableOptions { start_on_subscribe: true, emit_at_every_nth_tick: 1 }, e.h.clone());
        "iterator" false false |_e| (0..3i64).into_observable();
        "just" false false |_e| just(1i64);
        "throw" false false |_e| throw(1i64);
        "empty" false false |_e| empty();
        "never" false false |_e| never();
        "closed" false false |_e| closed();
        "create" false false |_e| create_observable(|d: &mut dyn Subscriber<In = i64, InError = i64>| { d.next(1); d.next(2); d.complete(); });
        "create(open)" false false |_e| create_observable(|d: &mut dyn Subscriber<In = i64, InError = i64>| { d.next(1); });
        "deferred" false false |e| { let a = e.a.clone(); deferred_observable(move || a.clone()) };
        "share" false true |e| e.a.clone().share(ConnectableOptions::new(ProvideWithDefault::<PublishSubject<i64, i64>>::default()));
    } };
}
macro_rules! items {
    ($($name:literal $t:literal $s:literal |$e:ident| $x:expr;)*) => { vec![$(Item { name: $name, timed: $t, shared: $s, drains: matches!($name, "delay" | "debounce_time" | "throttle_time" | "observe_on"), make: |$e: &Env| subber($x) }),*] };
}
pub fn items() -> Vec<Item> {
    catalogue!(items)
}
