//! What is left over.
//!
//! A mailbox is brought into some state (empty or full, receivers or senders waiting, connected or not),
//! and then a few operations which leave that state as it is (sends that are cancelled, receives that are dropped,
//! handles that come and go, messages sent and handled, ...) are repeated over and over, by one
//! thread or by several at once. What is allocated must not grow with the number of repetitions, and all of it
//! must be gone with the last handle.

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake, Waker};

use futures_sink::Sink;
use futures_util::FutureExt;
use spin::sim;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::Receiver;

use crate::alloc::{bytes, live};
use crate::check::{from_failure, Violation};
use crate::exec::{self, RunOut};
use crate::prog;
use crate::rng::{mix, Rng};
use crate::world::*;

/// Repetitions before the first, second, third and fourth measurement.
const ROUNDS: [u32; 4] = [24, 24, 48, 96];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Unpolled,
    /// Polled so often, then dropped.
    Polls(u8),
    /// Polled until accepted, the receiver of the result dropped at once.
    Detach,
    /// Polled until accepted, the result awaited.
    Await,
}

/// What becomes of a message that was received.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Then {
    Drop,
    Dispatch,
    /// The dispatch is dropped after so many polls.
    Cancel(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Script {
    Return,
    Yield,
    Panic,
    StopSelf,
    StopAll,
    Never,
}

#[derive(Clone, Debug)]
pub enum Op {
    /// A receive on an own mailbox: polled so often and dropped, or what becomes of its message.
    Recv(u8, Then),
    /// The same on a mailbox cloned for it, which is dropped before (or after) the receive.
    Clone(u8, bool),
    Send { prio: u32, how: How, script: Script, kind: u8, then: Then },
    Bcast { prio: u32, how: How, script: Script, then: Then },
    /// A waiting receive is assigned a message and dropped.
    Requeue(Then),
    Handles(u8),
    Join(u8),
    Scoped(u8, u8),
    /// `select` or `join` with a future ready after so many polls, itself polled so often.
    Nest { join: bool, ready: u8, polls: u8 },
    Sink(u8, bool),
    Query,
    /// An actor on a mailbox cloned for it, polled so often and dropped.
    Run(u8),
    /// A broadcast while there is one more mailbox, which is dropped with it.
    Extra(u32),
}

#[derive(Clone, Debug)]
pub struct CProg {
    pub cap: Option<usize>,
    pub mbs: usize,
    /// Messages that are queued all the time.
    pub backlog: usize,
    /// Sends and broadcasts that are waiting all the time.
    pub waiting: usize,
    pub waiting_b: usize,
    pub backlog_b: usize,
    /// Receives that are waiting all the time.
    pub recvs: usize,
    /// Without a strong address, without a mailbox.
    pub no_strong: bool,
    pub no_mb: bool,
    pub threads: Vec<Vec<(u32, Op)>>,
    pub strategy: sim::Strategy,
}

pub fn generate(_prop: &str, seed: u64) -> CProg {
    let mut r = Rng::new(seed ^ 0xC0_0C);
    let cap = *r.pick(&[None, None, Some(0), Some(1), Some(1), Some(2), Some(3), Some(5)]);
    let n = if r.pct(60) { 1 } else { r.range(2, 3) as usize };
    let mbs = r.range(1, 3) as usize;
    let backlog = match (r.below(3), cap) {
        (0, _) => 0,
        (1, None) => r.range(1, 4) as usize,
        (1, Some(c)) => r.below(c as u64 + 1) as usize,
        (_, c) => c.unwrap_or(2),
    };
    let full = cap.map_or(false, |c| backlog >= c) && (backlog > 0 || cap == Some(0));
    let one = n == 1;
    let backlog_b = if one && r.pct(25) { cap.map_or(2, |c| c.max(1)) } else { 0 };
    let mut p = CProg {
        cap,
        mbs,
        backlog,
        waiting: if full && one && r.pct(40) { r.range(1, 4) as usize } else { 0 },
        waiting_b: if backlog_b > 0 && cap.is_some() && r.pct(50) { r.range(1, 3) as usize } else { 0 },
        backlog_b,
        recvs: 0,
        no_strong: r.pct(8),
        no_mb: r.pct(8),
        threads: vec![],
        strategy: if one { sim::Strategy::RunToBlock } else { prog::strategy(&mut r, prog::Shape::Usual) },
    };
    if one && backlog == 0 && backlog_b == 0 && p.waiting == 0 && r.pct(40) {
        p.recvs = r.range(1, 3) as usize;
    }
    if p.no_mb {
        p.backlog = 0;
        p.backlog_b = 0;
        p.waiting = 0;
        p.waiting_b = 0;
        p.recvs = 0;
    }
    let mut id = 0;
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            let script = *r.pick(&[
                Script::Return,
                Script::Return,
                Script::Yield,
                Script::Panic,
                Script::StopSelf,
                Script::StopAll,
                Script::Never,
            ]);
            let how = *r.pick(&[How::Unpolled, How::Polls(1), How::Polls(2), How::Polls(3), How::Detach, How::Await]);
            let then = match r.below(3) {
                0 => Then::Drop,
                1 => Then::Dispatch,
                _ => Then::Cancel(r.below(3) as u8),
            };
            let prio = *r.pick(&[1, 1, 2, u32::MAX]);
            let polls = r.below(4) as u8;
            v.push((
                id,
                match r.weighted(&[6, 3, 7, 4, 3, 3, 3, 2, 3, 2, 1, 2, 2]) {
                    0 => Op::Recv(polls, then),
                    1 => Op::Clone(polls, r.pct(50)),
                    2 => Op::Send { prio, how, script, kind: r.below(6) as u8, then },
                    3 => Op::Bcast { prio, how, script, then },
                    4 => Op::Requeue(then),
                    5 => Op::Handles(r.below(6) as u8),
                    6 => Op::Join(polls),
                    7 => Op::Scoped(polls, r.below(4) as u8),
                    8 => Op::Nest { join: r.pct(50), ready: r.below(3) as u8, polls },
                    9 => Op::Sink(polls, r.pct(50)),
                    10 => Op::Query,
                    11 => Op::Run(polls),
                    _ => Op::Extra(prio),
                },
            ));
            id += 1;
        }
        p.threads.push(v);
    }
    p
}

pub fn units(p: &CProg) -> Vec<u32> {
    let mut u: Vec<u32> = p.threads.iter().flatten().map(|x| x.0).collect();
    u.extend(1000..1000 + 6);
    u
}

pub fn without(p: &CProg, drop: &[u32]) -> CProg {
    let mut p = p.clone();
    for t in p.threads.iter_mut() {
        t.retain(|x| !drop.contains(&x.0));
    }
    p.threads.retain(|t| !t.is_empty());
    for d in drop {
        match d {
            1000 => p.waiting = 0,
            1001 => p.waiting_b = 0,
            1002 => p.recvs = 0,
            1003 => p.mbs = 1,
            1004 => p.backlog_b = 0,
            1005 => p.backlog = p.backlog.min(p.cap.unwrap_or(0)),
            _ => {}
        }
    }
    p
}

struct C;

#[derive(Clone, Copy)]
struct M(Script);
#[derive(Clone, Copy)]
struct B(Script);

impl Actor for C {
    type Stop = ();
    async fn stopped(self) {}
}

struct Yield(u32);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

async fn act(s: Script, cx: &mut Context<C>) {
    with(|w| w.stats.handlers += 1);
    match s {
        Script::Return => {}
        Script::Yield => Yield(1).await,
        Script::Panic => {
            with(|w| w.stats.panics += 1);
            panic!("{}", USER_PANIC)
        }
        Script::StopSelf => cx.stop_self(),
        Script::StopAll => cx.stop_all(),
        Script::Never => Yield(u32::MAX).await,
    }
}

impl Handler<M> for C {
    type Return = u64;
    async fn handle(&mut self, m: M, cx: &mut Context<Self>) -> u64 {
        act(m.0, cx).await;
        7
    }
}

impl Handler<B> for C {
    type Return = ();
    async fn handle(&mut self, m: B, cx: &mut Context<Self>) {
        act(m.0, cx).await;
    }
}

/// A waker of its own for each poll: one that is kept without need shows as an allocation.
fn fresh_waker() -> Waker {
    struct Quiet;
    impl Wake for Quiet {
        fn wake(self: Arc<Self>) {}
    }
    Waker::from(Arc::new(Quiet))
}

fn poll<F: Future + Unpin>(f: &mut F) -> Option<Result<F::Output, ()>> {
    let w = fresh_waker();
    let mut cx = Cx::from_waker(&w);
    match sim::catch(|| Pin::new(f).poll(&mut cx)) {
        Ok(Poll::Ready(v)) => Some(Ok(v)),
        Ok(Poll::Pending) => None,
        Err(_) => Some(Err(())),
    }
}

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
/// A received message: told what is to become of it, or dropped.
type Msg = Box<dyn FnOnce(&mut C, u8)>;
type Recv = Fut<Msg>;

fn next(m: &Mailbox<C>) -> Recv {
    Box::pin(m.next().map(|msg| {
        Box::new(move |c: &mut C, polls: u8| {
            let mut f = Box::pin(msg.dispatch_to(c));
            for _ in 0..polls {
                if poll(&mut f).is_some() {
                    break;
                }
            }
        }) as Msg
    }))
}

/// What a thread works with.
struct T {
    strong: Option<Address<C, Strong>>,
    weak: Address<C, Weak>,
    mbs: Vec<Rc<Mailbox<C>>>,
    own: usize,
    actor: C,
    /// The receives that wait all the time, of this (the only) thread.
    recvs: Vec<(usize, Recv)>,
    waits: Vec<Option<Fut<Result<Receiver<u64>, xtra::Error>>>>,
    waits_b: Vec<Option<Fut<Result<(), xtra::Error>>>>,
    backlog: usize,
}

enum Got {
    Uni(Result<u64, xtra::Error>),
}

impl T {
    fn dispatch(&mut self, msg: Msg, then: Then) {
        if let Then::Cancel(_) = then {
            with(|w| w.stats.disp_cancels += 1);
        }
        match then {
            Then::Drop => drop(msg),
            Then::Dispatch => msg(&mut self.actor, 4),
            Then::Cancel(n) => msg(&mut self.actor, n),
        }
    }

    /// Take one message out of a mailbox, if there is one.
    fn take(&mut self, mb: usize, then: Then) -> bool {
        for i in 0..self.recvs.len() {
            if self.recvs[i].0 == mb {
                if let Some(Ok(msg)) = poll(&mut self.recvs[i].1) {
                    self.dispatch(msg, then);
                    self.recvs[i].1 = next(&self.mbs[mb]);
                    let _ = poll(&mut self.recvs[i].1);
                    return true;
                }
            }
        }
        let Some(m) = self.mbs.get(mb).cloned() else { return false };
        let mut f = next(&m);
        match poll(&mut f) {
            Some(Ok(msg)) => {
                drop(f);
                self.dispatch(msg, then);
                true
            }
            _ => false,
        }
    }

    fn send(&self, m: M, prio: u32, kind: u8) -> Fut<Result<Receiver<u64>, xtra::Error>> {
        match (kind, &self.strong) {
            (1, Some(a)) => Box::pin(MessageChannel::<M, u64, Strong>::new(a.clone()).send(m).priority(prio).detach()),
            (2, _) => Box::pin(MessageChannel::<M, u64, Weak>::new(self.weak.clone()).send(m).priority(prio).detach()),
            (3, Some(a)) => Box::pin(a.as_either().send(m).priority(prio).detach()),
            (4, Some(a)) => Box::pin(a.send(m).priority(prio).detach()),
            _ => Box::pin(self.weak.send(m).priority(prio).detach()),
        }
    }

    /// Everything that waits all the time waits again, and the backlog is what it was.
    fn settle(&mut self) {
        for i in 0..self.recvs.len() {
            for _ in 0..4 {
                match poll(&mut self.recvs[i].1) {
                    Some(Ok(msg)) => {
                        self.dispatch(msg, Then::Dispatch);
                        self.recvs[i].1 = next(&self.mbs[self.recvs[i].0]);
                    }
                    Some(Err(())) => return,
                    None => break,
                }
            }
        }
        for i in 0..self.waits.len() {
            if self.waits[i].as_mut().map_or(true, |f| poll(f).is_some()) {
                let mut f = self.send(M(Script::Return), 0, 0);
                self.waits[i] = if poll(&mut f).is_none() { Some(f) } else { None };
            }
        }
        for i in 0..self.waits_b.len() {
            if self.waits_b[i].as_mut().map_or(true, |f| poll(f).is_some()) {
                let mut f: Fut<_> = Box::pin(self.weak.broadcast(B(Script::Return)));
                self.waits_b[i] = if poll(&mut f).is_none() { Some(f) } else { None };
            }
        }
    }

    fn refill(&mut self, want: usize) {
        for _ in 0..4 {
            let n = self.weak.len();
            if n < want {
                let mut f = self.send(M(Script::Return), 0, 0);
                let _ = poll(&mut f);
            } else if n > want {
                if !self.take(0, Then::Drop) {
                    break;
                }
            } else {
                break;
            }
        }
    }

    fn run(&mut self, op: &Op) {
        let own = self.own;
        let have = !self.mbs.is_empty();
        with(|w| match op {
            Op::Recv(n, _) | Op::Clone(n, _) if *n > 0 => w.stats.recv_cancels += 1,
            Op::Send { how: How::Polls(_) | How::Unpolled, .. } => w.stats.send_cancels += 1,
            Op::Bcast { .. } => w.stats.broadcasts += 1,
            Op::Requeue(_) => w.stats.recv_cancels_assigned += 1,
            Op::Nest { .. } => w.stats.nested += 1,
            Op::Run(_) => w.stats.aborts += 1,
            Op::Extra(_) => w.stats.mb_drops += 1,
            _ => {}
        });
        with(|w| w.stats.ops += 1);
        match op {
            Op::Recv(polls, then) => {
                if !have {
                    return;
                }
                let m = self.mbs[own].clone();
                let mut f = next(&m);
                for _ in 0..*polls {
                    if let Some(r) = poll(&mut f) {
                        if let Ok(msg) = r {
                            self.dispatch(msg, *then);
                            self.refill(self.backlog);
                        }
                        break;
                    }
                }
            }
            Op::Clone(polls, first) => {
                if !have {
                    return;
                }
                let m = (*self.mbs[own]).clone();
                let mut f = next(&m);
                for _ in 0..*polls {
                    if let Some(r) = poll(&mut f) {
                        if let Ok(msg) = r {
                            self.dispatch(msg, Then::Drop);
                            self.refill(self.backlog);
                        }
                        break;
                    }
                }
                if *first {
                    drop(m);
                    drop(f);
                }
            }
            Op::Send { prio, how, script, kind, then } => {
                let mut f = self.send(M(*script), *prio, *kind);
                let mut ok = None;
                let n = match how {
                    How::Unpolled => 0,
                    How::Polls(n) => *n,
                    _ => 3,
                };
                for _ in 0..n {
                    if let Some(r) = poll(&mut f) {
                        ok = r.ok().and_then(|r| r.ok());
                        break;
                    }
                }
                drop(f);
                if let Some(mut rx) = ok {
                    if *how == How::Await {
                        let _ = poll(&mut rx);
                        self.take(own, *then);
                        let _ = poll(&mut rx).map(|r| r.map(Got::Uni));
                    } else {
                        drop(rx);
                        self.take(own, *then);
                    }
                    self.all_stopped(*script);
                }
            }
            Op::Bcast { prio, how, script, then } => {
                let mut f: Fut<Result<(), xtra::Error>> = Box::pin(self.weak.broadcast(B(*script)).priority(*prio));
                let n = match how {
                    How::Unpolled => 0,
                    How::Polls(n) => *n,
                    _ => 3,
                };
                let mut ok = false;
                for _ in 0..n {
                    if let Some(r) = poll(&mut f) {
                        ok = matches!(r, Ok(Ok(())));
                        break;
                    }
                }
                drop(f);
                if ok {
                    for mb in 0..self.mbs.len() {
                        self.take(mb, *then);
                        self.all_stopped(*script);
                    }
                }
            }
            Op::Requeue(then) => {
                if !have {
                    return;
                }
                let m = self.mbs[own].clone();
                let mut f = next(&m);
                if let Some(r) = poll(&mut f) {
                    if let Ok(msg) = r {
                        self.dispatch(msg, *then);
                        self.refill(self.backlog);
                    }
                    return;
                }
                let mut s = self.send(M(Script::Return), 1, 0);
                let ok = matches!(poll(&mut s), Some(Ok(Ok(_))));
                drop(f);
                drop(s);
                if ok {
                    self.take(own, *then);
                }
            }
            Op::Handles(k) => {
                let w = self.weak.clone();
                match k {
                    0 => drop(w.try_upgrade().map(|s| (s.clone(), s.downgrade(), s.as_either()))),
                    1 => drop((w.as_either().downgrade(), w.as_either().clone(), w.clone())),
                    2 => {
                        let c: MessageChannel<M, u64, Weak> = w.into();
                        drop((c.as_either(), c.clone(), c.as_either().downgrade()));
                    }
                    3 => {
                        if let Some(s) = w.try_upgrade() {
                            let c: MessageChannel<M, u64, Strong> = MessageChannel::new(s);
                            drop((c.as_either(), c.clone(), c.downgrade()));
                        }
                    }
                    4 => {
                        if let Some(m) = self.mbs.first() {
                            drop((m.address(), m.address().try_upgrade()));
                        }
                    }
                    _ => drop(format!("{:?}", w)),
                }
            }
            Op::Join(polls) => {
                let mut j = self.weak.join();
                for _ in 0..*polls {
                    if poll(&mut j).is_some() {
                        break;
                    }
                }
            }
            Op::Scoped(polls, ready) => {
                let mut f = Box::pin(xtra::scoped(&self.weak, Yield(*ready as u32)));
                for _ in 0..*polls {
                    if poll(&mut f).is_some() {
                        break;
                    }
                }
            }
            Op::Nest { join, ready, polls } => {
                if !have || self.backlog > 0 || self.weak.len() > 0 || self.strong.is_none() {
                    return;
                }
                let m = self.mbs[own].clone();
                let y = Yield(*ready as u32);
                let mut f: Pin<Box<dyn Future<Output = ()> + '_>> = if *join {
                    Box::pin(xtra::join(&m, &mut self.actor, y))
                } else {
                    Box::pin(async {
                        let _ = xtra::select(&m, &mut self.actor, y).await;
                    })
                };
                for _ in 0..*polls {
                    if poll(&mut f).is_some() {
                        break;
                    }
                }
            }
            Op::Sink(polls, close) => {
                let c = MessageChannel::<B, (), Either>::new(self.weak.as_either());
                let mut s = Box::pin(c.into_sink());
                let w = fresh_waker();
                let mut cx = Cx::from_waker(&w);
                let before = self.weak.len();
                if let Poll::Ready(Ok(())) = s.as_mut().poll_ready(&mut cx) {
                    let _ = s.as_mut().start_send(B(Script::Return));
                }
                for _ in 0..*polls {
                    let r = if *close { s.as_mut().poll_close(&mut cx) } else { s.as_mut().poll_flush(&mut cx) };
                    if r.is_ready() {
                        break;
                    }
                    if self.weak.len() > before {
                        self.take(own, Then::Dispatch);
                    }
                }
                drop(s);
                if have {
                    self.refill(self.backlog);
                }
            }
            Op::Run(polls) => {
                if !have {
                    return;
                }
                let m = (*self.mbs[own]).clone();
                let mut f = Box::pin(xtra::run(m, C));
                for _ in 0..*polls {
                    if poll(&mut f).is_some() {
                        break;
                    }
                }
                drop(f);
                self.refill(self.backlog);
            }
            Op::Extra(prio) => {
                if !have {
                    return;
                }
                let m = (*self.mbs[own]).clone();
                let mut f: Fut<Result<(), xtra::Error>> =
                    Box::pin(self.weak.broadcast(B(Script::Return)).priority(*prio));
                let ok = matches!(poll(&mut f), Some(Ok(Ok(()))));
                drop(f);
                if ok {
                    for mb in 0..self.mbs.len() {
                        self.take(mb, Then::Dispatch);
                    }
                }
                drop(m);
            }
            Op::Query => {
                let _ = (self.weak.len(), self.weak.is_connected(), self.weak.capacity(), self.weak.is_empty());
            }
        }
    }

    /// A handler may have told all actors to stop: each takes note.
    fn all_stopped(&mut self, s: Script) {
        if s == Script::StopAll {
            for mb in 0..self.mbs.len() {
                if self.weak.len() > self.backlog {
                    self.take(mb, Then::Dispatch);
                }
            }
        }
    }
}

fn bad(props: &str, rule: &'static str, msg: String) -> Violation {
    Violation {
        props: props.split(',').map(|x| x.to_string()).collect(),
        rule,
        msg,
    }
}

/// One life of a mailbox: so many repetitions before each measurement.
fn life(p: &CProg, rounds: &[u32], tail: u64) -> Vec<(i64, i64, usize)> {
    let (a, mb) = match p.cap {
        Some(c) => Mailbox::<C>::bounded(c),
        None => Mailbox::unbounded(),
    };
    let weak = a.downgrade();
    let mut mbs = vec![Rc::new(mb)];
    for _ in 1..p.mbs {
        mbs.push(Rc::new((*mbs[0]).clone()));
    }
    let strong = if p.no_strong { None } else { Some(a.clone()) };
    drop(a);
    if p.no_mb {
        mbs.clear();
    }
    let n = p.threads.len();
    let mut ts: Vec<T> = (0..n.max(1))
        .map(|i| T {
            strong: strong.clone(),
            weak: weak.clone(),
            own: if mbs.is_empty() { 0 } else { i % mbs.len() },
            mbs: mbs.clone(),
            actor: C,
            recvs: vec![],
            waits: vec![],
            waits_b: vec![],
            backlog: 0,
        })
        .collect();
    drop(strong);
    drop(mbs);
    drop(weak);
    let t = &mut ts[0];
    for _ in 0..p.backlog_b {
        let mut f: Fut<_> = Box::pin(t.weak.broadcast(B(Script::Return)));
        let _ = poll(&mut f);
    }
    for _ in 0..p.backlog {
        let mut f = t.send(M(Script::Return), 0, 0);
        let _ = poll(&mut f);
    }
    for i in 0..p.recvs {
        let k = i % t.mbs.len();
        let f = next(&t.mbs[k]);
        t.recvs.push((k, f));
    }
    t.waits = (0..p.waiting).map(|_| None).collect();
    t.waits_b = (0..p.waiting_b).map(|_| None).collect();
    t.settle();
    let base = t.weak.len();
    for t in ts.iter_mut() {
        t.backlog = base;
    }
    let ts = Rc::new(RefCell::new(ts));
    let mut seen = vec![];
    for n_rep in rounds {
        if n <= 1 {
            let mut ts = ts.borrow_mut();
            let t = &mut ts[0];
            for _ in 0..*n_rep {
                for (_, op) in p.threads.iter().flatten() {
                    t.run(op);
                    t.settle();
                }
            }
        } else {
            let list = std::mem::take(&mut *ts.borrow_mut());
            let back: Rc<RefCell<Vec<(usize, T)>>> = Rc::default();
            for (i, mut t) in list.into_iter().enumerate() {
                let ops = p.threads[i].clone();
                let back = back.clone();
                let n_rep = *n_rep;
                sim::spawn(
                    format!("churner {}", i),
                    Box::new(move || {
                        for _ in 0..n_rep {
                            for (_, op) in &ops {
                                t.run(op);
                            }
                        }
                        back.borrow_mut().push((i, t));
                    }),
                );
            }
            sim::settle();
            let mut list = std::mem::take(&mut *back.borrow_mut());
            list.sort_by_key(|x| x.0);
            let mut v: Vec<T> = list.into_iter().map(|x| x.1).collect();
            if v.len() == n {
                v[0].refill(base);
            }
            *ts.borrow_mut() = v;
            if ts.borrow().len() < n {
                return seen;
            }
        }
        let len = ts.borrow()[0].weak.len();
        let (at, size) = (live(), bytes());
        seen.push((at, size, len));
        log(Ev::Note { s: "length", a: len as u64, b: sim::steps() });
    }
    // Drop everything in some order. What is still pending then is polled once more, or dropped with the rest.
    let mut r = Rng::new(tail);
    let mut list = std::mem::take(&mut *ts.borrow_mut());
    let mut late: Vec<Fut<()>> = vec![];
    for t in list.iter_mut() {
        if r.below(2) == 0 {
            late.push(Box::pin(t.weak.join()));
            late.push(Box::pin(xtra::scoped(&t.weak, std::future::pending::<()>()).map(drop)));
        }
        for f in late.iter_mut() {
            let _ = poll(f);
        }
        if r.below(2) == 0 {
            let waits = std::mem::take(&mut t.waits);
            late.extend(waits.into_iter().flatten().map(|f| Box::pin(f.map(drop)) as Fut<()>));
            let waits = std::mem::take(&mut t.waits_b);
            late.extend(waits.into_iter().flatten().map(|f| Box::pin(f.map(drop)) as Fut<()>));
        }
    }
    let mut receives = vec![];
    while !list.is_empty() {
        let i = r.below(list.len() as u64) as usize;
        let mut t = list.swap_remove(i);
        for _ in 0..6 {
            match r.below(6) {
                0 => t.strong = None,
                1 => t.mbs.clear(),
                2 => t.recvs.clear(),
                3 => t.waits.clear(),
                4 => t.waits_b.clear(),
                _ => {
                    if r.below(2) == 0 {
                        receives.append(&mut t.recvs);
                    }
                }
            }
        }
        // A receive may still be under way for a mailbox that is gone.
        drop(t);
    }
    for (_, mut f) in receives {
        if let Some(Ok(msg)) = poll(&mut f) {
            drop(f);
            msg(&mut C, 4);
        }
    }
    for mut f in late {
        let _ = poll(&mut f);
    }
    seen
}

fn body(p: &CProg, tail: u64) -> Vec<Violation> {
    let mut out = vec![];
    let name = format!("{:?}", p).bytes().fold(0, |h, b| mix(h ^ b as u64));
    log(Ev::Note { s: "program", a: name, b: 0 });
    // What is set up once and for all is set up here.
    life(p, &[2], tail);
    let start = live();
    let seen = life(p, if p.threads.len() <= 1 { &ROUNDS } else { &ROUNDS[..3] }, tail);
    let end = live();
    if seen.len() >= 3 && seen.iter().all(|x| x.2 == seen[0].2) {
        let d1 = seen[1].0 - seen[0].0;
        let d2 = seen[2].0 - seen[1].0;
        if d1 >= 12 && d2 - d1 >= 12 {
            out.push(bad(
                "C29",
                "growth",
                format!(
                    "{} and {} more allocations are alive after {} and {} more repetitions which left the mailbox as it was",
                    d1, d2, ROUNDS[1], ROUNDS[2]
                ),
            ));
        }
        // The schedule of several threads takes up room itself.
        let b2 = seen[2].1 - seen[1].1;
        let b3 = seen.get(3).map_or(0, |x| x.1 - seen[2].1);
        if b2 >= 96 && b3 >= 192 {
            out.push(bad(
                "C29",
                "growth",
                format!(
                    "{} and {} more bytes are allocated after {} and {} more repetitions which left the mailbox as it was",
                    b2, b3, ROUNDS[2], ROUNDS[3]
                ),
            ));
        }
    }
    let slack = 8 * p.threads.len() as i64 + 8;
    if end - start > 0 {
        let (mut n, mut last) = (0, live());
        for k in 0..4 {
            life(p, &[2], mix(tail + k));
            let now = live();
            if now > last {
                n += 1;
            }
            last = now;
        }
        // Fibers leave something behind until the end of the run.
        if n == 4 && (p.threads.len() <= 1 || end - start > slack * 3) {
            out.push(bad(
                "C18,C29",
                "leftover",
                format!("{} allocations are still alive when every handle and operation is gone", end - start),
            ));
        }
    }
    out
}

pub fn run(p: &CProg, seed: u64, run_no: u64, replay: Option<Vec<(u32, u32)>>) -> (RunOut, Vec<Violation>) {
    let res: Rc<RefCell<Vec<Violation>>> = Rc::default();
    let (r2, p2) = (res.clone(), p.clone());
    let rep = exec::run_with(
        seed,
        run_no,
        p.strategy,
        p.cap,
        0,
        replay,
        Box::new(move || {
            let v = body(&p2, seed);
            *r2.borrow_mut() = v;
        }),
    );
    let out = exec::finish(rep);
    let mut v = std::mem::take(&mut *res.borrow_mut());
    if let Some((c, m)) = &out.rep.failure {
        v.push(from_failure(c, m));
    }
    (out, v)
}

pub fn describe(p: &CProg) -> String {
    format!("repeated operations: {:#?}\n", p)
}
