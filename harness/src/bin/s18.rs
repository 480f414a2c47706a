//! connectable observables and share against a model of the connector and its connections
use vh::prelude::*;
use rx_core::prelude::*;

type IEv = Ev<i64, i64>;
type R = Rec<i64, i64>;
type DynSub = Box<dyn SubscriptionLike + Send>;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg {
    share: bool,
    replay: bool,
    zero: bool,
    on_disc: bool,
    on_comp: bool,
    on_err: bool,
}
#[derive(Clone, Debug)]
enum Op {
    /// a subscriber that closes itself after so many values
    Sub(Option<usize>),
    Unsub(usize),
    Connect,
    Disconnect,
    Reset,
    Src(IEv),
}
struct Tgt {
    sub: Box<dyn FnMut(R) -> DynSub + Send + Sync>,
    connect: Box<dyn FnMut() + Send + Sync>,
    disconnect: Box<dyn FnMut() -> bool + Send + Sync>,
    on: Box<dyn Fn() -> bool + Send>,
    reset: Box<dyn FnMut() + Send + Sync>,
}
macro_rules! tgt {
    ($o:expr, |$r:ident| $reset:expr) => {{
        let o = $o;
        let (mut a, mut b, mut c, d, mut e) = (o.clone(), o.clone(), o.clone(), o.clone(), o);
        Tgt {
            sub: Box::new(move |r| Box::new(a.subscribe(r)) as DynSub),
            connect: Box::new(move || {
                b.connect();
            }),
            disconnect: Box::new(move || c.disconnect()),
            on: Box::new(move || d.is_connected()),
            reset: Box::new(move || {
                let $r = &mut e;
                $reset
            }),
        }
    }};
}
macro_rules! opts {
    ($c:expr, $p:expr) => {
        ConnectableOptions { connector_provider: $p, disconnect_when_ref_count_zero: $c.zero, reset_connector_on_disconnect: $c.on_disc, reset_connector_on_complete: $c.on_comp, reset_connector_on_error: $c.on_err }
    };
}
macro_rules! make {
    ($c:expr, $s:expr, $made:expr) => {{
        let m = $made.clone();
        let n = move || { *lk(&m) += 1 };
        match ($c.share, $c.replay) {
            (false, false) => tgt!(ConnectableObservable::new($s, opts!($c, move || { n(); PublishSubject::<i64, i64>::default() })), |r| r.reset()),
            (false, true) => tgt!(ConnectableObservable::new($s, opts!($c, move || { n(); ReplaySubject::<2, i64, i64>::default() })), |r| r.reset()),
            (true, false) => tgt!($s.share(opts!($c, move || { n(); PublishSubject::<i64, i64>::default() })), |r| { r.disconnect(); }),
            (true, true) => tgt!($s.share(opts!($c, move || { n(); ReplaySubject::<2, i64, i64>::default() })), |r| { r.disconnect(); }),
        }
    }};
}

#[derive(Default)]
struct Con {
    hist: Vec<i64>,
    term: Option<IEv>,
    subs: Vec<usize>,
}
struct SubM {
    log: Vec<IEv>,
    open: bool,
    left: Option<usize>,
    counted: bool,
    con: usize,
}
struct M<'a> {
    cfg: Cfg,
    pre: &'a [Vec<IEv>],
    cons: Vec<Con>,
    cur: Option<usize>,
    /// the connector of the running connection
    active: Option<usize>,
    made: usize,
    count: usize,
    subs: Vec<SubM>,
    /// everybody left while it was being made
    empty: bool,
    connecting: bool,
}
impl M<'_> {
    fn connector(&mut self) -> usize {
        if self.cur.is_none() {
            self.cons.push(Con::default());
            self.cur = Some(self.cons.len() - 1);
        }
        self.cur.unwrap()
    }
    fn give(&mut self, i: usize, e: &IEv) {
        let s = &mut self.subs[i];
        if !s.open {
            return;
        }
        s.log.push(e.clone());
        match e {
            Ev::N(_) => {
                if let Some(l) = &mut s.left {
                    *l -= 1;
                    if *l == 0 {
                        self.gone(i)
                    }
                }
            }
            _ => self.gone(i),
        }
    }
    fn gone(&mut self, i: usize) {
        if !self.subs[i].open {
            return;
        }
        self.subs[i].open = false;
        let c = self.subs[i].con;
        self.cons[c].subs.retain(|x| *x != i);
        if self.subs[i].counted {
            self.subs[i].counted = false;
            self.count -= 1;
            if self.count == 0 && self.cfg.zero {
                self.empty = true;
                if !self.connecting {
                    self.disconnect();
                }
            }
        }
    }
    fn sub(&mut self, left: Option<usize>) {
        let c = self.connector();
        self.subs.push(SubM { log: vec![], open: true, left, counted: false, con: c });
        let i = self.subs.len() - 1;
        if self.cfg.replay && !matches!(self.cons[c].term, Some(Ev::E(_))) {
            for x in self.cons[c].hist.clone() {
                self.give(i, &Ev::N(x))
            }
        }
        if let Some(t) = self.cons[c].term.clone() {
            self.give(i, &t)
        }
        if self.subs[i].open {
            self.cons[c].subs.push(i);
            self.subs[i].counted = true;
            self.count += 1;
        }
        if self.cfg.share {
            self.connect()
        }
    }
    fn connect(&mut self) {
        if self.active.is_some() {
            return;
        }
        let c = self.connector();
        let n = self.made;
        self.made += 1;
        if self.cons[c].term.is_some() {
            return;
        }
        self.active = Some(c);
        self.connecting = true;
        self.empty = false;
        for e in self.pre.get(n).cloned().unwrap_or_default() {
            self.src(&e)
        }
        self.connecting = false;
        if self.empty {
            self.disconnect();
        }
    }
    fn disconnect(&mut self) -> bool {
        let was = self.active.take().is_some();
        if was && self.cfg.on_disc {
            self.cur = None
        }
        was
    }
    fn src(&mut self, e: &IEv) {
        let Some(c) = self.active else { return };
        match e {
            Ev::N(x) => {
                self.cons[c].hist.push(*x);
                if self.cons[c].hist.len() > 2 {
                    self.cons[c].hist.remove(0);
                }
            }
            Ev::U => {
                self.disconnect();
                return;
            }
            t => {
                self.active = None;
                self.cons[c].term = Some(t.clone());
                if if *t == Ev::C { self.cfg.on_comp } else { self.cfg.on_err } {
                    self.cur = None
                }
            }
        }
        for i in self.cons[c].subs.clone() {
            self.give(i, e)
        }
    }
}
fn run(cfg: Cfg, pre: &[Vec<IEv>], ops: &[Op]) -> Result<(), String> {
    let s: Script<i64, i64> = Script::with_each(pre.to_vec());
    let made: Arc<Mutex<usize>> = Default::default();
    let mut t: Tgt = make!(cfg, s.clone(), made);
    let mut m = M { cfg, pre, cons: vec![], cur: None, active: None, made: 0, count: 0, subs: vec![], empty: false, connecting: false };
    let mut hs: Vec<(RecH<i64, i64>, DynSub)> = vec![];
    for (k, op) in ops.iter().enumerate() {
        let at = format!("after step {k} {op:?}");
        match op {
            Op::Sub(ca) => {
                let h: RecH<i64, i64> = match ca {
                    Some(n) => RecH::closing_after(*n),
                    None => RecH::new(),
                };
                let sub = (t.sub)(h.rec());
                hs.push((h, sub));
                m.sub(*ca);
            }
            Op::Unsub(i) => {
                if let Some((_, s)) = hs.get_mut(*i) {
                    s.unsubscribe();
                    let closing = m.subs[*i].open;
                    m.gone(*i);
                    if closing {
                        m.subs[*i].log.push(Ev::U)
                    }
                }
            }
            Op::Connect => {
                (t.connect)();
                m.connect()
            }
            Op::Disconnect => eq(&format!("disconnected {at}"), (t.disconnect)(), m.disconnect())?,
            Op::Reset => {
                (t.reset)();
                m.disconnect();
                if !cfg.share {
                    m.cur = None
                }
            }
            Op::Src(e) => {
                let n = (&s).count();
                if n > 0 {
                    s.conn(n - 1).offer(e.clone())
                }
                m.src(e)
            }
        }
        eq(&format!("subscriptions to the source {at}"), (&s).count(), m.made)?;
        eq(&format!("connected {at}"), (t.on)(), m.active.is_some())?;
        eq(&format!("source subscribed {at}"), s.live(), m.active.is_some() as usize)?;
        eq(&format!("connectors {at}"), *lk(&made), m.cons.len())?;
        for (i, (h, sub)) in hs.iter().enumerate() {
            eq(&format!("subscriber {i} {at}"), h.log(), m.subs[i].log.clone())?;
            eq(&format!("subscriber {i} closed {at}"), sub.is_closed(), !m.subs[i].open)?;
            ensure(cfg.replay || h.after_close().iter().all(|e| e.term()), format!("subscriber {i} {at}: signals after closing: {:?}, log {:?}", h.after_close(), h.log()))?;
        }
    }
    Ok(())
}
/// over the real subjects
fn subject(cfg: Cfg, ns: &[usize]) -> Result<(), String> {
    let mut p: PublishSubject<i64, i64> = Default::default();
    let made: Arc<Mutex<usize>> = Default::default();
    let mut t: Tgt = make!(cfg, p.clone(), made);
    let mut hs: Vec<(RecH<i64, i64>, DynSub)> = vec![];
    for n in ns {
        let h: RecH<i64, i64> = RecH::closing_after(*n);
        let s = (t.sub)(h.rec());
        hs.push((h, s));
    }
    (t.connect)();
    let most = ns.iter().copied().max().unwrap_or(0);
    for x in 1..=most as i64 + 1 {
        p.next(x);
        for (n, (h, s)) in ns.iter().zip(&hs) {
            let w: Vec<IEv> = (1..=x.min(*n as i64)).map(Ev::N).collect();
            eq(&format!("after {x}"), h.log(), w)?;
            eq(&format!("closed after {x}"), s.is_closed(), x >= *n as i64)?;
        }
        eq(&format!("connected after {x}"), (t.on)(), !(cfg.zero && x >= most as i64))?;
    }
    Ok(())
}

/// used from within a delivery
fn inside(cfg: Cfg, op: usize, real: bool) -> Result<(), String> {
    let mut p: PublishSubject<i64, i64> = Default::default();
    let s: Script<i64, i64> = Script::new();
    let made: Arc<Mutex<usize>> = Default::default();
    let t: Tgt = if real { make!(cfg, p.clone(), made) } else { make!(cfg, s.clone(), made) };
    let Tgt { mut sub, mut connect, mut disconnect, on, .. } = t;
    let h: RecH<i64, i64> = RecH::new();
    let h2: RecH<i64, i64> = RecH::new();
    let keep: Arc<Mutex<Vec<DynSub>>> = Default::default();
    let first = sub(h.rec());
    connect();
    {
        let (h2, keep) = (h2.clone(), keep.clone());
        let mut done = false;
        h.set_hook(move |_, _| {
            if done { return }
            done = true;
            match op {
                0 => {
                    let s = sub(h2.rec());
                    lk(&keep).push(s)
                }
                1 => connect(),
                _ => {
                    disconnect();
                }
            }
        });
    }
    for x in 1..=3 {
        if real { p.next(x) } else { s.conn((&s).count() - 1).offer(Ev::N(x)) }
    }
    let all = |r: std::ops::RangeInclusive<i64>| r.map(Ev::N).collect::<Vec<IEv>>();
    eq("first subscriber", h.log(), if op == 2 { all(1..=1) } else { all(1..=3) })?;
    eq("second subscriber", h2.log(), if op == 0 { all(2..=3) } else { vec![] })?;
    eq("connected", on(), op != 2)?;
    if !real { eq("subscriptions to the source", (&s).count(), 1)?; }
    drop(first);
    Ok(())
}

/// used from within a delivery made while it is being connected, or from within a teardown of its source
fn during(cfg: Cfg, connecting: bool, op: usize) -> Result<(), String> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        type Hook = Arc<Mutex<Option<Box<dyn FnMut() + Send + Sync>>>>;
        let hook: Hook = Default::default();
        let fire = {
            let hook = hook.clone();
            move || {
                let f = lk(&hook).take();
                if let Some(mut f) = f {
                    f()
                }
            }
        };
        let made: Arc<Mutex<usize>> = Default::default();
        let s: Script<i64, i64> = if connecting { Script::with(vec![Ev::N(1), Ev::N(2), Ev::N(3)]) } else { Script::new() };
        let f2 = fire.clone();
        let t: Tgt = make!(cfg, s.clone().finalize(move || if !connecting { f2() }), made);
        let Tgt { sub, mut connect, disconnect, on, .. } = t;
        let (sub, disconnect, on) = (Arc::new(Mutex::new(sub)), Arc::new(Mutex::new(disconnect)), Arc::new(Mutex::new(on)));
        let (h, h2): (RecH<i64, i64>, RecH<i64, i64>) = (RecH::new(), RecH::new());
        let keep: Arc<Mutex<Vec<DynSub>>> = Default::default();
        let mut told = 0;
        h.set_hook(move |_, _| {
            told += 1;
            if connecting && told == 1 {
                fire()
            }
        });
        let arm = {
            let (h2, keep, sub, on) = (h2.clone(), keep.clone(), sub.clone(), on.clone());
            move || {
                *lk(&hook) = Some(Box::new(move || match op {
                    0 => {
                        let s = (lk(&sub))(h2.rec());
                        lk(&keep).push(s)
                    }
                    _ => {
                        let _ = (lk(&on))();
                    }
                }))
            }
        };
        let first = (lk(&sub))(h.rec());
        arm();
        connect();
        if !connecting {
            (lk(&disconnect))();
        }
        let _ = tx.send((h.log(), h2.log(), (lk(&on))()));
        drop(first);
    });
    match rx.recv_timeout(Duration::from_secs(3)) {
        Err(_) => Err("never returns".into()),
        Ok((log, log2, on)) => {
            if !connecting {
                eq("connected", on, cfg.share && op == 0)?;
            } else {
                eq("values", log, vec![Ev::N(1), Ev::N(2), Ev::N(3)])?;
                eq("values of the second", log2, if op == 0 { vec![Ev::N(2), Ev::N(3)] } else { vec![] })?;
            }
            Ok(())
        }
    }
}
fn main() {
    main_with(|c| {
        let bs = [false, true];
        let mut cfgs = vec![];
        for share in bs { for replay in bs { for zero in bs { for on_disc in bs { for on_comp in bs { for on_err in bs {
            cfgs.push(Cfg { share, replay, zero, on_disc, on_comp, on_err })
        } } } } } }
        let al = [Op::Sub(None), Op::Sub(Some(1)), Op::Unsub(0), Op::Unsub(1), Op::Connect, Op::Disconnect, Op::Reset, Op::Src(Ev::N(1)), Op::Src(Ev::C), Op::Src(Ev::E(7)), Op::Src(Ev::U)];
        let seqs = seqs(&al, c.size(4, 5));
        let pres: Vec<Vec<Vec<IEv>>> = vec![vec![], vec![vec![Ev::N(50)]], vec![vec![Ev::N(51), Ev::C], vec![Ev::N(52)]], vec![vec![Ev::E(53)]], vec![vec![Ev::N(54), Ev::U]]];
        for (k, ops) in seqs.iter().enumerate() {
            if !ops.iter().any(|o| matches!(o, Op::Sub(_) | Op::Connect)) { continue }
            for i in 0..c.size(3, 4) {
                let cfg = cfgs[(k * 13 + i * 29 + k / 7) % cfgs.len()];
                let pre = &pres[(k + i * 3 + k / 11) % pres.len()];
                let nm = if cfg.share { "share" } else { "connectable" };
                c.case(&format!("{nm}: sequences"), &format!("{cfg:?} {pre:?} {ops:?}"), || run(cfg, pre, ops));
            }
        }
        for cfg in &cfgs {
            for ns in [vec![1], vec![2], vec![1, 2], vec![2, 1], vec![1, 1], vec![3, 1, 2]] {
                c.case(if cfg.share { "share: subject" } else { "connectable: subject" }, &format!("{cfg:?} {ns:?}"), || subject(*cfg, &ns));
            }
        }
        for cfg in &cfgs {
            for op in 0..3 {
                for real in bs {
                    if cfg.replay { continue }
                    c.case(if cfg.share { "share: from within a delivery" } else { "connectable: from within a delivery" }, &format!("{cfg:?} {op} {real}"), || inside(*cfg, op, real));
                }
            }
        }
        for cfg in &cfgs {
            if cfg.replay || cfg.on_comp || cfg.on_err {
                continue;
            }
            for op in [0, 2] {
                c.case("used within a teardown of its source", &format!("{cfg:?} {op}"), || during(*cfg, false, op));
            }
            if !cfg.share && !cfg.zero && !cfg.on_disc {
                c.case("subscribed to from within a delivery made while connecting", &format!("{cfg:?}"), || during(*cfg, true, 0));
            }
            c.case("asked whether connected while connecting", &format!("{cfg:?}"), || during(*cfg, true, 2));
        }
        // many subscribers, many connections
        for cfg in &cfgs {
            let nm = if cfg.share { "share: many" } else { "connectable: many" };
            for n in [20usize, 70] {
                let mut ops: Vec<Op> = (0..n).map(|_| Op::Sub(None)).collect();
                ops.push(Op::Connect);
                ops.extend((0..4).map(|i| Op::Src(Ev::N(i))));
                ops.extend((1..n).map(Op::Unsub));
                ops.extend([Op::Src(Ev::N(9)), Op::Unsub(0), Op::Src(Ev::N(10)), Op::Sub(None), Op::Src(Ev::C), Op::Sub(None)]);
                c.case(nm, &format!("{cfg:?} {ops:?}"), || run(*cfg, &[], &ops));
                let ops: Vec<Op> = (0..n).flat_map(|i| [Op::Sub(None), Op::Connect, Op::Src(Ev::N(i as i64)), if i % 2 == 0 { Op::Disconnect } else { Op::Unsub(i) }]).collect();
                c.case(nm, &format!("{cfg:?} {ops:?}"), || run(*cfg, &[], &ops));
            }
        }
        let mut r = c.rng("s18");
        for _ in 0..c.rounds(30000) {
            let cfg = cfgs[r.below(cfgs.len())];
            let mut v = 0;
            let mut sig = |r: &mut Rng| {
                v += 1;
                match r.below(12) {
                    0..=7 => Ev::N(v),
                    8 | 9 => Ev::C,
                    10 => Ev::E(v),
                    _ => Ev::U,
                }
            };
            let pre: Vec<Vec<IEv>> = (0..4).map(|_| {
                let mut o = vec![];
                for _ in 0..r.below(3) {
                    let e = sig(&mut r);
                    let t = !matches!(e, Ev::N(_));
                    o.push(e);
                    if t { break }
                }
                if r.chance(50) { vec![] } else { o }
            }).collect();
            let ops: Vec<Op> = (0..2 + r.below(16)).map(|_| match r.below(14) {
                0..=2 => Op::Sub(if r.chance(40) { Some(1 + r.below(3)) } else { None }),
                3 | 4 => Op::Unsub(r.below(4)),
                5 | 6 => Op::Connect,
                7 => Op::Disconnect,
                8 => Op::Reset,
                _ => Op::Src(sig(&mut r)),
            }).collect();
            c.case(if cfg.share { "share: random" } else { "connectable: random" }, &format!("{cfg:?} {pre:?} {ops:?}"), || run(cfg, &pre, &ops));
        }
    });
}
