//! Concurrent runs: executes a program under the seeded scheduler and collects its history.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};

use futures_util::future;
use spin::sim;
use xtra::prelude::*;
use xtra::Receiver;

use crate::act::*;
use crate::ident;
use crate::prog::*;
use crate::world::*;

pub struct RunOut {
    pub rep: sim::Report,
    pub log: Vec<Ev>,
    pub stats: Stats,
    pub log_hash: u64,
}

pub fn log_hash(log: &[Ev]) -> u64 {
    use std::fmt::Write;
    struct Fnv(u64);
    impl Write for Fnv {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            }
            Ok(())
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    for e in log {
        let _ = write!(h, "{:?};", e);
    }
    h.0
}

struct Cl {
    slots: Vec<H>,
    held_send: Vec<Probe<SendFut>>,
    held_det: Vec<Probe<DetFut>>,
    held_bc: Vec<Probe<BcFut>>,
    held_res: Vec<Probe<ResFut>>,
}

pub type ResFut = Receiver<u64>;

pub fn res_probe(m: MsgId, r: Receiver<u64>) -> Probe<ResFut> {
    Probe::new(Role::Res, m, false, r)
}

thread_local! {
    /// Unrelated mailboxes so far.
    static OTHERS: RefCell<u32> = const { RefCell::new(0) };
    static SUB: RefCell<u32> = const { RefCell::new(0) };
}

/// Run a future as a task of its own.
pub fn task(name: &str, f: impl Future<Output = ()> + 'static) -> u32 {
    let n = SUB.with(|s| {
        *s.borrow_mut() += 1;
        *s.borrow()
    });
    if sim::fiber_count() > 85 {
        return u32::MAX;
    }
    spawn(format!("{}{}", name, n), Box::pin(f), None, None)
}

/// The inner future of a scoped task: logs its polls.
struct Inr {
    id: u32,
    done: bool,
    f: Pin<Box<dyn Future<Output = ()> + Send>>,
}

impl Future for Inr {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u64> {
        if self.done {
            sim::fail("C20", "scoped polled the inner future after it completed");
        }
        let r = self.f.as_mut().poll(cx);
        log(Ev::InnerPoll {
            op: self.id,
            ready: r.is_ready(),
        });
        match r {
            Poll::Ready(()) => {
                self.done = true;
                Poll::Ready(self.id as u64)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

pub type ScopedFut = Pin<Box<dyn Future<Output = Option<u64>>>>;

pub fn scoped_probe(h: &H, inner: Inner) -> Option<Probe<ScopedFut>> {
    let id = with(|w| {
        w.next_nest += 1;
        w.next_nest
    });
    let f = Inr {
        id,
        done: false,
        f: inner_fut(inner),
    };
    log(Ev::Note {
        s: "join created",
        a: id as u64,
        b: 0,
    });
    let s: ScopedFut = match h.any() {
        Any::S(a) => Box::pin(xtra::scoped(a, f)),
        Any::W(a) => Box::pin(xtra::scoped(a, f)),
        Any::E(a) => Box::pin(xtra::scoped(a, f)),
        _ => return None,
    };
    let p = Probe::new(Role::Scoped, NO_MSG, false, s);
    log(Ev::Note {
        s: "scoped",
        a: p.op as u64,
        b: id as u64 * 2 + (inner == Inner::Never) as u64,
    });
    Some(p)
}

pub fn join_probe(h: &H) -> Probe<xtra::address::ActorJoinHandle> {
    let id = with(|w| {
        w.next_nest += 1;
        w.next_nest
    });
    log(Ev::Note {
        s: "join created",
        a: id as u64,
        b: 0,
    });
    let j = h.join();
    let p = Probe::new(Role::Join, NO_MSG, false, j);
    log(Ev::Note {
        s: "join",
        a: p.op as u64,
        b: id as u64 * 2,
    });
    p
}

async fn poll_drop<F>(mut p: Probe<F>, n: u32) -> Option<F::Output>
where
    F: Future + Unpin,
    F::Output: ToOut,
{
    for i in 0..=n {
        if let Some(v) = PollOnce(&mut p).await {
            return Some(v);
        }
        if i < n {
            YieldN(1).await;
        }
    }
    with(|w| w.stats.send_cancels += 1);
    None
}

async fn timeout<F>(p: Probe<F>, d: u64) -> Option<F::Output>
where
    F: Future + Unpin,
    F::Output: ToOut,
{
    match future::select(p, Sleep::new(d)).await {
        future::Either::Left((v, _)) => Some(v),
        future::Either::Right((_, p)) => {
            with(|w| w.stats.timeouts += 1);
            drop(p);
            None
        }
    }
}

impl Cl {
    fn idx(&self, slot: u32) -> Option<usize> {
        if self.slots.is_empty() {
            None
        } else {
            Some(slot as usize % self.slots.len())
        }
    }

    async fn op(&mut self, k: &OpKind) {
        match k {
            OpKind::Send { slot, m, mode } => {
                let Some(i) = self.idx(*slot) else { return };
                let m = *m;
                let spec = msg_spec(m);
                if spec.kind == Kind::Unit && !self.slots[i].is_chan() {
                    // Unit messages resolve to nothing; they are only sent through plain sends.
                    let p = self.slots[i].send(m, spec.prio);
                    match mode {
                        SendMode::Spawn | SendMode::SpawnDet | SendMode::Hold | SendMode::DetHold => {
                            task("s", async move {
                                let _ = p.await;
                            });
                        }
                        _ => {
                            let _ = timeout(p, 40).await;
                        }
                    }
                    return;
                }
                if spec.kind == Kind::Unit {
                    return;
                }
                let det = matches!(
                    mode,
                    SendMode::DetAwait
                        | SendMode::DetDrop
                        | SendMode::DetHold
                        | SendMode::DetTimeout(_)
                        | SendMode::SpawnDet
                );
                if det {
                    let p = self.slots[i].send_detached(m, spec.prio);
                    match mode {
                        SendMode::DetAwait => {
                            if let Ok(r) = p.await {
                                let _ = res_probe(m, r).await;
                            }
                        }
                        SendMode::DetDrop => {
                            let _ = p.await;
                        }
                        SendMode::DetHold => {
                            if let Ok(r) = p.await {
                                self.held_res.push(res_probe(m, r));
                            }
                        }
                        SendMode::DetTimeout(d) => {
                            if let Some(Ok(r)) = timeout(p, *d).await {
                                if m % 2 == 0 {
                                    let _ = timeout(res_probe(m, r), *d).await;
                                }
                            }
                        }
                        _ => {
                            task("d", async move {
                                if let Ok(r) = p.await {
                                    let _ = res_probe(m, r).await;
                                }
                            });
                        }
                    }
                } else {
                    let mut p = self.slots[i].send(m, spec.prio);
                    match mode {
                        SendMode::Await => {
                            let _ = p.await;
                        }
                        SendMode::Timeout(d) => {
                            let _ = timeout(p, *d).await;
                        }
                        SendMode::PollDrop(n) => {
                            let _ = poll_drop(p, *n).await;
                        }
                        SendMode::Spawn => {
                            task("s", async move {
                                let _ = p.await;
                            });
                        }
                        SendMode::Unpolled => drop(p),
                        _ => {
                            if PollOnce(&mut p).await.is_none() {
                                self.held_send.push(p);
                            }
                        }
                    }
                }
            }
            OpKind::Bcast { slot, m, mode } => {
                let Some(i) = self.idx(*slot) else { return };
                let spec = msg_spec(*m);
                let Some(mut p) = self.slots[i].broadcast(*m, spec.prio) else { return };
                match mode {
                    SendMode::Await | SendMode::DetAwait | SendMode::DetDrop => {
                        let _ = p.await;
                    }
                    SendMode::Timeout(d) | SendMode::DetTimeout(d) => {
                        let _ = timeout(p, *d).await;
                    }
                    SendMode::PollDrop(n) => {
                        let _ = poll_drop(p, *n).await;
                    }
                    SendMode::Unpolled => drop(p),
                    SendMode::Spawn | SendMode::SpawnDet => {
                        task("b", async move {
                            let _ = p.await;
                        });
                    }
                    SendMode::Hold | SendMode::DetHold => {
                        if PollOnce(&mut p).await.is_none() {
                            self.held_bc.push(p);
                        }
                    }
                }
            }
            OpKind::Clone { slot } => {
                if let Some(i) = self.idx(*slot) {
                    let h = self.slots[i].dup();
                    self.slots.push(h);
                }
            }
            OpKind::Down { slot } => {
                if let Some(i) = self.idx(*slot) {
                    let h = self.slots[i].downgrade();
                    self.slots.push(h);
                }
            }
            OpKind::Up { slot } => {
                // The first weak slot at or after the given one.
                let n = self.slots.len();
                for d in 0..n {
                    let i = (*slot as usize + d) % n;
                    if let Some(r) = self.slots[i].upgrade() {
                        if let Some(h) = r {
                            self.slots.push(h);
                        }
                        break;
                    }
                }
            }
            OpKind::Either { slot } => {
                if let Some(i) = self.idx(*slot) {
                    let h = self.slots[i].either();
                    self.slots.push(h);
                }
            }
            OpKind::Chan { slot } => {
                if let Some(i) = self.idx(*slot) {
                    let h = self.slots[i].chan();
                    self.slots.push(h);
                }
            }
            OpKind::Drop { slot } => {
                if let Some(i) = self.idx(*slot) {
                    drop(self.slots.remove(i));
                }
            }
            OpKind::Query { slot } => {
                let Some(i) = self.idx(*slot) else { return };
                let h = &self.slots[i];
                h.is_connected();
                h.len();
                if h.capacity() != CAP.with(|c| *c.borrow()) {
                    sim::fail("C23,C22", "capacity differs from the one the mailbox was created with");
                }
                h.debug();
            }
            OpKind::Ident => {
                let (oa, omb) = Mailbox::<Act>::unbounded();
                let other = OTHERS.with(|o| {
                    *o.borrow_mut() += 1;
                    *o.borrow()
                });
                let weak = [Any::W(oa.downgrade()), Any::W(omb.address())];
                let strong = [Any::E(oa.as_either()), Any::CS(oa.clone().into()), Any::S(oa)];
                let mut ids: Vec<ident::Id<'_>> = vec![];
                ids.extend(weak.iter().map(|a| (a, other, false)));
                ids.extend(strong.iter().map(|a| (a, other, true)));
                ids.extend(self.slots.iter().map(|h| (h.any(), 0, h.strong)));
                if let Some(e) = ident::check(&ids) {
                    sim::fail("C25,C22", &e);
                }
            }
            OpKind::Join { slot, mode } => {
                let Some(i) = self.idx(*slot) else { return };
                let p = join_probe(&self.slots[i]);
                match mode {
                    WaitMode::Spawn => {
                        task("j", async move { p.await });
                    }
                    WaitMode::Timeout(d) => {
                        let _ = timeout(p, *d).await;
                    }
                    WaitMode::Unpolled => drop(p),
                }
            }
            OpKind::Scoped { slot, inner, mode } => {
                let Some(i) = self.idx(*slot) else { return };
                let Some(p) = scoped_probe(&self.slots[i], *inner) else { return };
                match mode {
                    WaitMode::Spawn => {
                        task("c", async move {
                            let _ = p.await;
                        });
                    }
                    WaitMode::Timeout(d) => {
                        let _ = timeout(p, *d).await;
                    }
                    WaitMode::Unpolled => drop(p),
                }
            }
            OpKind::Sink { slot, ms } => {
                let Some(i) = self.idx(*slot) else { return };
                let Some(mut s) = self.slots[i].sink() else { return };
                for m in ms {
                    let f = SinkSend {
                        s: s.s.as_mut().unwrap(),
                        item: Some(Unit(Pay::new(*m, None))),
                        started: false,
                    };
                    let p = Probe::new(Role::Sink, *m, s.strong, f);
                    if p.await.is_err() {
                        break;
                    }
                }
                drop(s);
            }
            OpKind::CloneMb { mb } => {
                if let Some(m) = take_mb(*mb) {
                    let c = Mb::clone_of(m.1.inner.as_ref().unwrap());
                    put_mb(m);
                    env(|e| e.mbs.push(Some(c)));
                }
            }
            OpKind::DropMb { mb } => {
                if let Some((_, m)) = take_mb(*mb) {
                    drop(m);
                }
            }
            OpKind::Start { mb, actor } => {
                if let Some((_, m)) = take_mb(*mb) {
                    start_actor(*actor, m);
                }
            }
            OpKind::Abort { actor } => {
                let t = env(|e| e.act_task.get(*actor as usize).copied().flatten());
                if let Some(t) = t {
                    with(|w| w.stats.aborts += 1);
                    log(Ev::Abort { actor: *actor });
                    abort(t);
                }
            }
            OpKind::Sleep(d) => Sleep::new(*d).await,
            OpKind::Yield(n) => YieldN(*n).await,
            OpKind::OpenGate(g) => open_gate(*g),
        }
    }
}

/// Sends one item through a sink and flushes it.
struct SinkSend<'a> {
    s: &'a mut Pin<Box<dyn futures_sink::Sink<Unit, Error = xtra::Error>>>,
    item: Option<Unit>,
    started: bool,
}

impl Future for SinkSend<'_> {
    type Output = Result<(), xtra::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        if !this.started {
            match this.s.as_mut().poll_ready(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {}
            }
            this.started = true;
            let it = this.item.take().unwrap();
            if let Err(e) = this.s.as_mut().start_send(it) {
                return Poll::Ready(Err(e));
            }
        }
        this.s.as_mut().poll_flush(cx)
    }
}

thread_local! {
    pub static CAP: RefCell<Option<usize>> = const { RefCell::new(None) };
}

fn take_mb(i: u32) -> Option<(usize, Mb)> {
    env(|e| {
        let n = e.mbs.len();
        if n == 0 {
            return None;
        }
        for d in 0..n {
            let k = (i as usize + d) % n;
            if let Some(m) = e.mbs[k].take() {
                return Some((k, m));
            }
        }
        None
    })
}

fn have_mb() -> bool {
    env(|e| e.mbs.iter().any(|m| m.is_some()))
}

fn put_mb((k, m): (usize, Mb)) {
    env(|e| e.mbs[k] = Some(m))
}

async fn client(mut c: Cl, ops: Vec<Op>) {
    for o in &ops {
        c.op(&o.k).await;
        sim::point();
    }
    for p in std::mem::take(&mut c.held_send) {
        let _ = p.await;
    }
    for p in std::mem::take(&mut c.held_bc) {
        let _ = p.await;
    }
    for p in std::mem::take(&mut c.held_res) {
        let _ = p.await;
    }
    for p in std::mem::take(&mut c.held_det) {
        let _ = p.await;
    }
    while !c.slots.is_empty() {
        drop(c.slots.remove(0));
    }
}

fn init_slot(main: &H, s: SlotInit) -> H {
    match s {
        SlotInit::Strong => main.dup(),
        SlotInit::Weak => main.downgrade(),
        SlotInit::Either => main.either(),
        SlotInit::EitherWeak => main.downgrade().either(),
        SlotInit::Chan => main.chan(),
        SlotInit::ChanWeak => main.downgrade().chan(),
        SlotInit::ChanEither => main.either().chan(),
    }
}

fn phase(n: u32) {
    log(Ev::Phase { n });
}

fn driver(p: Prog) {
    log(Ev::AddB { strong: true });
    let (a, m) = match p.cap {
        Some(c) => Mailbox::<Act>::bounded(c),
        None => Mailbox::<Act>::unbounded(),
    };
    log(Ev::AddE {
        strong: true,
        ok: true,
    });
    let main = H::adopt(Any::S(a), true);
    let id = new_mb_id();
    log(Ev::MbAddB { mb: id });
    log(Ev::MbAddE { mb: id });
    let first = Mb { id, inner: Some(m) };
    let mut mbs = vec![];
    for _ in 1..p.mbs {
        mbs.push(Some(Mb::clone_of(first.inner.as_ref().unwrap())));
    }
    mbs.insert(0, Some(first));
    env(|e| {
        e.via = p.via;
        e.mbs = mbs;
        e.act_task = vec![None; p.actors.len()];
    });
    for (i, a) in p.start_now.iter().enumerate() {
        if let Some((_, m)) = take_mb(i as u32) {
            start_actor(*a, m);
        }
    }
    let weak = main.downgrade();
    for (i, c) in p.clients.iter().enumerate() {
        let cl = Cl {
            slots: c.slots.iter().map(|s| init_slot(&main, *s)).collect(),
            held_send: vec![],
            held_det: vec![],
            held_bc: vec![],
            held_res: vec![],
        };
        spawn(format!("client{}", i), Box::pin(client(cl, c.ops.clone())), None, None);
    }
    let main = if p.keep_strong {
        Some(main)
    } else {
        drop(main);
        None
    };
    phase(1);
    sim::settle();
    // Faults stop.
    sim::set_fault_budget(0);
    phase(2);
    for g in 0..p.gates {
        open_gate(g);
    }
    sim::settle();
    // Mailboxes nobody serves, also those that are made meanwhile.
    let extra = p.actors.len() as u32;
    let mut k = 0;
    let mut serve = || {
        while let Some((_, m)) = take_mb(0) {
            if p.park_run {
                start_actor(extra + k, m);
                k += 1;
            } else {
                drop(m);
            }
            if !have_mb() {
                sim::settle();
            }
        }
        sim::settle();
    };
    serve();
    // Gates never close again and no mailbox was left behind, unless a late handler made one.
    phase(3);
    drop(main);
    serve();
    phase(4);
    open_gate(crate::act::NEVER_GATE);
    serve();
    phase(5);
    weak.is_connected();
    weak.len();
    drop(weak.upgrade());
    let j = join_probe(&weak);
    let det = weak.send_detached(p.msgs.len() as u32 - 1, None);
    task("z", async move {
        j.await;
        let _ = det.await;
    });
    sim::settle();
    drop(weak);
    log(Ev::Note {
        s: "wakers",
        a: with(|w| w.live_wakers) as u64,
        b: 0,
    });
    phase(6);
}

/// Run a program.
pub fn run(p: &Prog, seed: u64, run_no: u64, replay: Option<Vec<(u32, u32)>>) -> RunOut {
    let mut p = p.clone();
    // A message for the last send after disconnection.
    p.msgs.push(MsgSpec {
        kind: Kind::Uni,
        prio: None,
        script: vec![],
        extra: ExtraSpec::None,
    });
    let mut actors = p.actors.clone();
    for _ in 0..16 {
        actors.push(ActorSpec {
            kind: LoopKind::Run,
            start: None,
            start_ok: true,
            stop: None,
            start_panic: false,
            start_nest: None,
        });
    }
    BOOK.with(|b| {
        *b.borrow_mut() = Rc::new(Book {
            msgs: p.msgs.clone(),
            actors,
        })
    });
    ENV.with(|e| *e.borrow_mut() = Env::default());
    CAP.with(|c| *c.borrow_mut() = p.cap);
    SUB.with(|s| *s.borrow_mut() = 0);
    OTHERS.with(|o| *o.borrow_mut() = 0);
    ident::reset();
    #[cfg(feature = "helpers")]
    crate::helpers::reset();
    crate::span::begin(p.span_level);
    W.with(|w| *w.borrow_mut() = Some(new_world(run_no, p.spurious, 16)));
    let cfg = sim::Config {
        seed,
        strategy: p.strategy,
        max_steps: 2_000_000,
        timer_num: p.timer_num,
        cas_num: p.cas_num,
        replay,
    };
    let budget = p.fault_budget;
    let p2 = p.clone();
    let rep = sim::run(
        cfg,
        Box::new(move || {
            sim::set_fault_budget(budget);
            driver(p2)
        }),
    );
    finish(rep)
}

/// Run a body of its own as the only fiber.
pub fn run_with(
    seed: u64,
    run_no: u64,
    strategy: sim::Strategy,
    cap: Option<usize>,
    spans: u32,
    replay: Option<Vec<(u32, u32)>>,
    body: Box<dyn FnOnce()>,
) -> sim::Report {
    ENV.with(|e| *e.borrow_mut() = Env::default());
    CAP.with(|c| *c.borrow_mut() = cap);
    SUB.with(|s| *s.borrow_mut() = 0);
    OTHERS.with(|o| *o.borrow_mut() = 0);
    ident::reset();
    crate::span::begin(spans as _);
    W.with(|w| *w.borrow_mut() = Some(new_world(run_no, 0, 16)));
    let cfg = sim::Config {
        seed,
        strategy,
        max_steps: 2_000_000,
        timer_num: 0,
        cas_num: 0,
        replay,
    };
    sim::run(cfg, body)
}

pub fn finish(mut rep: sim::Report) -> RunOut {
    let mut w = W.with(|w| w.borrow_mut().take()).unwrap();
    // Values abandoned on stuck fibers are never dropped; forget what refers to them.
    let failed = rep.failure.is_some() || !rep.stuck.is_empty();
    let env = ENV.with(|e| std::mem::take(&mut *e.borrow_mut()));
    if failed {
        std::mem::forget(env);
        std::mem::forget(std::mem::take(&mut w.timers));
        std::mem::forget(std::mem::take(&mut w.gates));
    } else if crate::span::open_spans() != 0 && rep.failure.is_none() {
        rep.failure = Some((
            "C24".into(),
            format!("{} spans still open after everything is gone", crate::span::open_spans()),
        ));
    }
    let log_hash = log_hash(&w.log);
    RunOut {
        log: std::mem::take(&mut w.log),
        stats: w.stats.clone(),
        rep,
        log_hash,
    }
}

pub type Ops = BTreeMap<OpId, u32>;
