//! The simulated user: addresses, messages, actors and their scripts.

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll, Waker};

use futures_util::future::{self, Either as FEither, FusedFuture};
use futures_util::FutureExt;
use spin::sim;
use xtra::message_channel::MessageChannel;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::{Error, Receiver, WeakAddress};

use crate::world::*;

pub const NO_ACTOR: u32 = u32::MAX;

// ---------------------------------------------------------------- specification of behaviour

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Sent to one actor, returns a value.
    Uni,
    /// Sent to one actor, returns nothing (sinks).
    Unit,
    /// Broadcast.
    Bc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Inner {
    Ready,
    Yield(u32),
    Sleep(u64),
    Gate(u32),
    Never,
    /// Panics after some polls. Only where that is caught or ends the actor.
    Boom(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum HAct {
    Yield(u32),
    Sleep(u64),
    Gate(u32),
    StopSelf,
    StopAll,
    Panic,
    /// Detached send to the own address, polled once, then dropped.
    SelfSend(u32),
    /// Detached broadcast on the own address, polled once, then dropped.
    SelfBcast(u32),
    Select(Inner),
    Join(Inner),
    /// Upgrade the mailbox's address and hold it for the rest of the handler.
    Hold,
    /// Clone the mailbox and start another actor on it.
    SpawnSibling(u32),
    /// Query the own address.
    Query,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DropAct {
    None,
    Len,
    Connected,
    Upgrade,
    Send(u32),
    Join,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExtraSpec {
    None,
    Strong(DropAct),
    Weak(DropAct),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MsgSpec {
    pub kind: Kind,
    pub prio: Option<u32>,
    pub script: Vec<HAct>,
    pub extra: ExtraSpec,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RecvPlan {
    Await,
    /// Drop the receive future without polling it.
    Unpolled,
    /// Poll once, let time pass without polling, then drop it.
    HoldDrop(Inner),
    /// Poll once, let time pass without polling, then poll a last time before dropping it.
    HoldFinal(Inner),
    /// Two receive futures at once; the second is dropped after the first delivered.
    Two,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DispPlan {
    Await,
    /// Drop the dispatch after `n` polls that were pending.
    Cancel(u32),
    /// Drop the dispatch when the timer fires.
    Timeout(u64),
    /// Go on should the handler panic.
    Catch,
    /// Throw the message away.
    DropMsg,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LoopKind {
    Run,
    YieldOnce,
    Custom(Vec<(RecvPlan, DispPlan)>),
    /// Handles messages while driving a future with select at top level, then runs.
    SelectTop(Inner),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ActorSpec {
    pub kind: LoopKind,
    pub start: Option<Inner>,
    pub start_ok: bool,
    pub stop: Option<Inner>,
    pub start_panic: bool,
    /// Select (or join) on the mailbox while starting.
    pub start_nest: Option<(bool, Inner)>,
}

/// Behaviour of messages and actors of the current run.
#[derive(Default)]
pub struct Book {
    pub msgs: Vec<MsgSpec>,
    pub actors: Vec<ActorSpec>,
}

thread_local! {
    pub static BOOK: RefCell<Rc<Book>> = RefCell::new(Rc::new(Book::default()));
    pub static ENV: RefCell<Env> = RefCell::new(Env::default());
}

/// Live objects shared by the simulated clients of a run.
#[derive(Default)]
pub struct Env {
    pub mbs: Vec<Option<Mb>>,
    pub act_task: Vec<Option<u32>>,
    pub via: crate::helpers::Via,
}

pub fn via() -> crate::helpers::Via {
    env(|e| e.via)
}

pub fn book() -> Rc<Book> {
    BOOK.with(|b| b.borrow().clone())
}

pub fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}

pub fn msg_spec(m: MsgId) -> MsgSpec {
    book().msgs[m as usize].clone()
}

// ---------------------------------------------------------------- addresses

pub enum Any {
    S(Address<Act>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>),
    CS(MessageChannel<Uni, u64, Strong>),
    CW(MessageChannel<Uni, u64, Weak>),
    CE(MessageChannel<Uni, u64, Either>),
}

/// An address of any kind, logging its creation and destruction.
pub struct H {
    pub a: Option<Any>,
    pub strong: bool,
}

impl H {
    pub fn adopt(a: Any, strong: bool) -> H {
        H { a: Some(a), strong }
    }

    fn make(strong: bool, f: impl FnOnce() -> Any) -> H {
        log(Ev::AddB { strong });
        let a = f();
        log(Ev::AddE { strong, ok: true });
        H { a: Some(a), strong }
    }

    pub fn any(&self) -> &Any {
        self.a.as_ref().unwrap()
    }

    pub fn is_chan(&self) -> bool {
        matches!(self.any(), Any::CS(_) | Any::CW(_) | Any::CE(_))
    }

    pub fn dup(&self) -> H {
        H::make(self.strong, || match self.any() {
            Any::S(a) => Any::S(a.clone()),
            Any::W(a) => Any::W(a.clone()),
            Any::E(a) => Any::E(a.clone()),
            Any::CS(a) => Any::CS(a.clone()),
            Any::CW(a) => Any::CW(a.clone()),
            Any::CE(a) => Any::CE(a.clone()),
        })
    }

    pub fn downgrade(&self) -> H {
        H::make(false, || match self.any() {
            Any::S(a) => Any::W(a.downgrade()),
            Any::W(a) => Any::W(a.clone()),
            Any::E(a) => Any::W(a.downgrade()),
            Any::CS(a) => Any::CW(a.downgrade()),
            Any::CW(a) => Any::CW(a.clone()),
            Any::CE(a) => Any::CW(a.downgrade()),
        })
    }

    /// `None` if this kind cannot be upgraded.
    pub fn upgrade(&self) -> Option<Option<H>> {
        match self.any() {
            Any::W(a) => Some(upgrade_weak(a)),
            _ => None,
        }
    }

    pub fn either(&self) -> H {
        H::make(self.strong, || match self.any() {
            Any::S(a) => Any::E(a.as_either()),
            Any::W(a) => Any::E(a.as_either()),
            Any::E(a) => Any::E(a.as_either()),
            Any::CS(a) => Any::CE(a.as_either()),
            Any::CW(a) => Any::CE(a.as_either()),
            Any::CE(a) => Any::CE(a.as_either()),
        })
    }

    pub fn chan(&self) -> H {
        H::make(self.strong, || match self.any() {
            Any::S(a) => Any::CS(MessageChannel::new(a.clone())),
            Any::W(a) => Any::CW(a.clone().into()),
            Any::E(a) => Any::CE(MessageChannel::new(a.clone())),
            Any::CS(a) => Any::CS(a.clone()),
            Any::CW(a) => Any::CW(a.clone()),
            Any::CE(a) => Any::CE(a.clone()),
        })
    }

    pub fn is_connected_raw(&self) -> bool {
        match self.any() {
            Any::S(a) => a.is_connected(),
            Any::W(a) => a.is_connected(),
            Any::E(a) => a.is_connected(),
            Any::CS(a) => a.is_connected(),
            Any::CW(a) => a.is_connected(),
            Any::CE(a) => a.is_connected(),
        }
    }

    pub fn is_connected(&self) -> bool {
        let q = new_q();
        log(Ev::ConnB { q });
        let res = self.is_connected_raw();
        log(Ev::ConnE { q, res });
        res
    }

    pub fn len_raw(&self) -> usize {
        match self.any() {
            Any::S(a) => a.len(),
            Any::W(a) => a.len(),
            Any::E(a) => a.len(),
            Any::CS(a) => a.len(),
            Any::CW(a) => a.len(),
            Any::CE(a) => a.len(),
        }
    }

    pub fn len(&self) -> usize {
        let q = new_q();
        log(Ev::LenB { q });
        let len = self.len_raw();
        log(Ev::LenE { q, len, empty: len == 0 });
        len
    }

    pub fn is_empty_raw(&self) -> bool {
        match self.any() {
            Any::S(a) => a.is_empty(),
            Any::W(a) => a.is_empty(),
            Any::E(a) => a.is_empty(),
            Any::CS(a) => a.is_empty(),
            Any::CW(a) => a.is_empty(),
            Any::CE(a) => a.is_empty(),
        }
    }

    pub fn capacity(&self) -> Option<usize> {
        match self.any() {
            Any::S(a) => a.capacity(),
            Any::W(a) => a.capacity(),
            Any::E(a) => a.capacity(),
            Any::CS(a) => a.capacity(),
            Any::CW(a) => a.capacity(),
            Any::CE(a) => a.capacity(),
        }
    }

    pub fn join(&self) -> xtra::address::ActorJoinHandle {
        match self.any() {
            Any::S(a) => a.join(),
            Any::W(a) => a.join(),
            Any::E(a) => a.join(),
            Any::CS(a) => a.join(),
            Any::CW(a) => a.join(),
            Any::CE(a) => a.join(),
        }
    }

    pub fn debug(&self) -> String {
        match self.any() {
            Any::S(a) => format!("{:?}", a),
            Any::W(a) => format!("{:?}", a),
            Any::E(a) => format!("{:?}", a),
            Any::CS(a) => format!("{:?}", a),
            Any::CW(a) => format!("{:?}", a),
            Any::CE(a) => format!("{:?}", a),
        }
    }

    /// Create a returning send.
    pub fn send(&self, m: MsgId, prio: Option<u32>) -> Probe<SendFut> {
        macro_rules! go {
            ($a:expr, $m:expr) => {{
                let f = $a.send($m);
                match prio {
                    Some(p) => Box::pin(f.priority(p)) as SendFut,
                    None => Box::pin(f) as SendFut,
                }
            }};
        }
        macro_rules! unit {
            ($a:expr) => {{
                let f = $a.send(Unit(Pay::new(m, Some(self))));
                match prio {
                    Some(p) => Box::pin(f.priority(p).map(|r| r.map(|()| UNIT_RET))) as SendFut,
                    None => Box::pin(f.map(|r| r.map(|()| UNIT_RET))) as SendFut,
                }
            }};
        }
        let is_unit = msg_spec(m).kind == Kind::Unit;
        let f: SendFut = match self.any() {
            Any::S(a) if is_unit => unit!(a),
            Any::W(a) if is_unit => unit!(a),
            Any::E(a) if is_unit => unit!(a),
            Any::S(a) => go!(a, Uni(Pay::new(m, Some(self)))),
            Any::W(a) => go!(a, Uni(Pay::new(m, Some(self)))),
            Any::E(a) => go!(a, Uni(Pay::new(m, Some(self)))),
            Any::CS(a) => go!(a, Uni(Pay::new(m, Some(self)))),
            Any::CW(a) => go!(a, Uni(Pay::new(m, Some(self)))),
            Any::CE(a) => go!(a, Uni(Pay::new(m, Some(self)))),
        };
        Probe::new(Role::Send, m, self.strong, f)
    }

    /// Create a detached send.
    pub fn send_detached(&self, m: MsgId, prio: Option<u32>) -> Probe<DetFut> {
        macro_rules! go {
            ($a:expr) => {{
                let f = $a.send(Uni(Pay::new(m, Some(self))));
                match prio {
                    Some(p) if m % 2 == 0 => Box::pin(f.priority(p).detach()) as DetFut,
                    Some(p) => Box::pin(f.detach().priority(p)) as DetFut,
                    None => Box::pin(f.detach()) as DetFut,
                }
            }};
        }
        let f: DetFut = match self.any() {
            Any::S(a) => go!(a),
            Any::W(a) => go!(a),
            Any::E(a) => go!(a),
            Any::CS(a) => go!(a),
            Any::CW(a) => go!(a),
            Any::CE(a) => go!(a),
        };
        Probe::new(Role::Det, m, self.strong, f)
    }

    /// Create a broadcast, unless this is a channel.
    pub fn broadcast(&self, m: MsgId, prio: Option<u32>) -> Option<Probe<BcFut>> {
        macro_rules! go {
            ($a:expr) => {{
                let f = $a.broadcast(Bc(Pay::new(m, Some(self))));
                match prio {
                    Some(p) => Box::pin(f.priority(p)) as BcFut,
                    None => Box::pin(f) as BcFut,
                }
            }};
        }
        let f: BcFut = match self.any() {
            Any::S(a) => go!(a),
            Any::W(a) => go!(a),
            Any::E(a) => go!(a),
            _ => return None,
        };
        with(|w| w.stats.broadcasts += 1);
        Some(Probe::new(Role::Bc, m, self.strong, f))
    }

    /// Turn into a sink of unit messages. Returns the sink and whether it holds a strong address.
    pub fn sink(&self) -> Option<SinkBox> {
        log(Ev::AddB { strong: self.strong });
        let s: Option<Pin<Box<dyn futures_sink::Sink<Unit, Error = Error>>>> = match self.any() {
            Any::S(a) => Some(Box::pin(a.clone().into_sink())),
            Any::W(a) => Some(Box::pin(a.clone().into_sink())),
            Any::E(a) => Some(Box::pin(
                MessageChannel::<Unit, (), Either>::new(a.clone()).into_sink(),
            )),
            _ => None,
        };
        log(Ev::AddE {
            strong: self.strong,
            ok: s.is_some(),
        });
        s.map(|s| SinkBox {
            s: Some(s),
            strong: self.strong,
        })
    }
}

/// Result reported for unit-returning sends.
pub const UNIT_RET: u64 = u64::MAX;

pub struct SinkBox {
    pub s: Option<Pin<Box<dyn futures_sink::Sink<Unit, Error = Error>>>>,
    pub strong: bool,
}

impl Drop for SinkBox {
    fn drop(&mut self) {
        log(Ev::DelB { strong: self.strong });
        self.s = None;
        log(Ev::DelE { strong: self.strong });
    }
}

pub fn new_q() -> u32 {
    with(|w| {
        w.next_q += 1;
        w.next_q
    })
}

pub fn upgrade_weak(a: &WeakAddress<Act>) -> Option<H> {
    let q = new_q();
    log(Ev::UpB { q });
    let r = a.try_upgrade();
    log(Ev::UpE { q, some: r.is_some() });
    r.map(|a| H::adopt(Any::S(a), true))
}

impl Drop for H {
    fn drop(&mut self) {
        if let Some(a) = self.a.take() {
            log(Ev::DelB { strong: self.strong });
            sim::point();
            drop(a);
            log(Ev::DelE { strong: self.strong });
        }
    }
}

pub type SendFut = Pin<Box<dyn Future<Output = Result<u64, Error>>>>;
pub type DetFut = Pin<Box<dyn Future<Output = Result<Receiver<u64>, Error>>>>;
pub type BcFut = Pin<Box<dyn Future<Output = Result<(), Error>>>>;

impl ToOut for Result<u64, Error> {
    fn to_out(&self) -> Out {
        match self {
            Ok(v) => Out::Val(*v),
            Err(Error::Disconnected) => Out::Disconnected,
            Err(Error::Interrupted) => Out::Interrupted,
        }
    }
}
impl ToOut for Result<Receiver<u64>, Error> {
    fn to_out(&self) -> Out {
        match self {
            Ok(_) => Out::Queued,
            Err(Error::Disconnected) => Out::Disconnected,
            Err(Error::Interrupted) => Out::Interrupted,
        }
    }
}
impl ToOut for Result<(), Error> {
    fn to_out(&self) -> Out {
        match self {
            Ok(()) => Out::Queued,
            Err(Error::Disconnected) => Out::Disconnected,
            Err(Error::Interrupted) => Out::Interrupted,
        }
    }
}
impl ToOut for () {
    fn to_out(&self) -> Out {
        Out::Done
    }
}
impl ToOut for Option<u64> {
    fn to_out(&self) -> Out {
        match self {
            Some(v) => Out::Val(*v),
            None => Out::Gone,
        }
    }
}

// ---------------------------------------------------------------- mailboxes

pub struct Mb {
    pub id: MbId,
    pub inner: Option<Mailbox<Act>>,
}

pub fn new_mb_id() -> MbId {
    with(|w| {
        w.next_mb += 1;
        w.next_mb - 1
    })
}

impl Mb {
    pub fn clone_of(m: &Mailbox<Act>) -> Mb {
        let id = new_mb_id();
        log(Ev::MbAddB { mb: id });
        let inner = m.clone();
        log(Ev::MbAddE { mb: id });
        Mb {
            id,
            inner: Some(inner),
        }
    }
}

impl Drop for Mb {
    fn drop(&mut self) {
        if let Some(m) = self.inner.take() {
            log(Ev::MbDelB { mb: self.id });
            with(|w| w.stats.mb_drops += 1);
            drop(m);
            log(Ev::MbDelE { mb: self.id });
        }
    }
}

// ---------------------------------------------------------------- messages

pub struct Extra {
    addr: H,
    act: DropAct,
}

/// Payload of every message; its copies and their destruction are logged.
pub struct Pay {
    pub m: MsgId,
    pub copy: u32,
    extra: Option<Box<Extra>>,
}

impl Pay {
    /// `h`: the address the message is sent through, which the payload may carry.
    pub fn new(m: MsgId, h: Option<&H>) -> Pay {
        let extra = match (msg_spec(m).extra, h) {
            (ExtraSpec::Strong(act), Some(h)) => Some(Box::new(Extra { addr: h.dup(), act })),
            (ExtraSpec::Weak(act), Some(h)) => Some(Box::new(Extra {
                addr: h.downgrade(),
                act,
            })),
            _ => None,
        };
        Pay { m, copy: 0, extra }
    }
}

impl Clone for Pay {
    fn clone(&self) -> Pay {
        sim::point();
        let m = self.m;
        let copy = with(|w| {
            let c = w.copies.entry(m).or_insert(0);
            *c += 1;
            *c
        });
        log(Ev::PayClone { m, copy });
        let extra = self.extra.as_ref().map(|e| {
            Box::new(Extra {
                addr: e.addr.dup(),
                act: e.act,
            })
        });
        Pay { m, copy, extra }
    }
}

fn noop_waker() -> Waker {
    futures_util::task::noop_waker()
}

impl Drop for Pay {
    fn drop(&mut self) {
        if !have_world() {
            return;
        }
        log(Ev::PayDrop {
            m: self.m,
            copy: self.copy,
        });
        sim::point();
        if let Some(e) = self.extra.take() {
            match e.act {
                DropAct::None => {}
                DropAct::Len => {
                    e.addr.len();
                }
                DropAct::Connected => {
                    e.addr.is_connected();
                }
                DropAct::Upgrade => {
                    drop(e.addr.upgrade());
                }
                DropAct::Join => {
                    drop(e.addr.join());
                }
                DropAct::Send(m2) => {
                    if self.copy == 0 {
                        let mut f = e.addr.send_detached(m2, book().msgs[m2 as usize].prio);
                        let w = noop_waker();
                        let mut cx = Cx::from_waker(&w);
                        let r = Pin::new(&mut f).poll(&mut cx);
                        drop(f);
                        drop(r);
                    }
                }
            }
            drop(e);
        }
    }
}

pub struct Uni(pub Pay);
pub struct Unit(pub Pay);
#[derive(Clone)]
pub struct Bc(pub Pay);

// ---------------------------------------------------------------- the actor

pub struct Act {
    pub id: ActorId,
    /// Its loop catches panics of handlers.
    pub caught: bool,
    pub depth: u32,
    pub mb: MbId,
}

struct HGuard {
    m: MsgId,
    actor: ActorId,
    done: bool,
}

impl Drop for HGuard {
    fn drop(&mut self) {
        if !self.done {
            let how = if sim::panicking() {
                How::Panic
            } else {
                How::Dropped
            };
            log(Ev::HEnd {
                m: self.m,
                actor: self.actor,
                how,
                ret: 0,
            });
        }
    }
}

pub fn ret_of(m: MsgId, actor: ActorId) -> u64 {
    m as u64 * 1000 + actor as u64 + 7
}

/// The future given to select or join: logs its polls.
pub struct Nested {
    id: u32,
    /// The actor that ends if this panics.
    fatal: Option<ActorId>,
    boom: Option<u32>,
    f: Pin<Box<dyn Future<Output = ()> + Send>>,
    done: bool,
}

impl Future for Nested {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u64> {
        if self.done {
            sim::fail("C21", "select/join polled the inner future after it completed");
        }
        if let Some(n) = &mut self.boom {
            if *n == 0 {
                with(|w| w.stats.panics += 1);
                if let Some(actor) = self.fatal {
                    log(Ev::Panicking { actor });
                }
                panic!("{} in the future given to select or join", USER_PANIC);
            }
            *n -= 1;
        }
        let r = self.f.as_mut().poll(cx);
        log(Ev::NestPoll {
            id: self.id,
            ready: r.is_ready(),
        });
        match r {
            Poll::Ready(()) => {
                self.done = true;
                Poll::Ready(self.id as u64 + 5000)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

/// Opens only once every strong address is supposed to be gone, so that programs in which an actor
/// and the holder of a strong address wait for each other end, too.
pub const NEVER_GATE: u32 = 15;

pub fn inner_fut(i: Inner) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    match i {
        Inner::Ready => Box::pin(future::ready(())),
        Inner::Yield(n) => Box::pin(YieldN(n)),
        Inner::Sleep(d) => Box::pin(Sleep::new(d)),
        Inner::Gate(g) => Box::pin(Gate(g)),
        Inner::Never => Box::pin(Gate(NEVER_GATE)),
        Inner::Boom(n) => Box::pin(async move {
            YieldN(n).await;
            with(|w| w.stats.panics += 1);
            panic!("{} while a receive future is held", USER_PANIC);
        }),
    }
}

/// Whether a future of this kind wants to be polled all the time until it is ready.
fn busy(i: Inner) -> bool {
    matches!(i, Inner::Ready | Inner::Yield(_) | Inner::Boom(_))
}

pub fn nested(i: Inner, fatal: Option<ActorId>) -> Nested {
    let id = with(|w| {
        w.next_nest += 1;
        w.stats.nested += 1;
        w.next_nest
    });
    let (boom, i) = match i {
        Inner::Boom(n) => (Some(n), Inner::Yield(n + 1)),
        i => (None, i),
    };
    Nested {
        id,
        fatal,
        boom,
        f: inner_fut(i),
        done: false,
    }
}

/// Drop order: the address is dropped while `depth` handlers are still running.
impl Act {
    async fn body(&mut self, pay: Pay, ctx: &mut Context<Self>) -> u64 {
        let m = pay.m;
        let spec = msg_spec(m);
        let depth = self.depth;
        log(Ev::HStart {
            m,
            copy: pay.copy,
            actor: self.id,
            depth,
        });
        with(|w| w.stats.handlers += 1);
        crate::span::on_handler(self.id, m, spec.kind == Kind::Bc);
        let mut guard = HGuard {
            m,
            actor: self.id,
            done: false,
        };
        sim::point();
        self.depth += 1;
        let mut held: Vec<H> = Vec::new();
        for a in &spec.script {
            match a {
                HAct::Yield(n) => YieldN(*n).await,
                HAct::Sleep(d) => Sleep::new(*d).await,
                HAct::Gate(g) => Gate(*g).await,
                HAct::StopSelf => {
                    with(|w| w.stats.stops += 1);
                    log(Ev::StopSelf { actor: self.id, m });
                    ctx.stop_self();
                }
                HAct::StopAll => {
                    with(|w| w.stats.stops += 1);
                    log(Ev::StopAllB { actor: self.id });
                    ctx.stop_all();
                    log(Ev::StopAllE { actor: self.id });
                }
                HAct::Panic => {
                    with(|w| w.stats.panics += 1);
                    if !self.caught {
                        log(Ev::Panicking { actor: self.id });
                    }
                    panic!("{} in handler of message {}", USER_PANIC, m)
                }
                HAct::SelfSend(m2) => {
                    let h = H::adopt(Any::W(ctx.mailbox().address()), false);
                    let mut f = h.send_detached(*m2, msg_spec(*m2).prio);
                    let w = noop_waker();
                    let mut cx = Cx::from_waker(&w);
                    let r = Pin::new(&mut f).poll(&mut cx);
                    drop(f);
                    drop(r);
                }
                HAct::SelfBcast(m2) => {
                    let h = H::adopt(Any::W(ctx.mailbox().address()), false);
                    let mut f = h.broadcast(*m2, msg_spec(*m2).prio).unwrap();
                    let w = noop_waker();
                    let mut cx = Cx::from_waker(&w);
                    let r = Pin::new(&mut f).poll(&mut cx);
                    drop(f);
                    drop(r);
                }
                HAct::Select(i) => self.select_on(ctx.mailbox(), *i).await,
                HAct::Join(i) => self.join_on(ctx.mailbox(), *i).await,
                HAct::Hold => {
                    if let Some(h) = upgrade_weak(&ctx.mailbox().address()) {
                        held.push(h)
                    }
                }
                HAct::SpawnSibling(spec) => {
                    let mb = Mb::clone_of(ctx.mailbox());
                    start_actor(*spec, mb);
                }
                HAct::Query => {
                    let h = H::adopt(Any::W(ctx.mailbox().address()), false);
                    h.is_connected();
                    h.len();
                }
            }
            sim::point();
        }
        drop(held);
        self.depth = depth;
        let ret = ret_of(m, self.id);
        guard.done = true;
        log(Ev::HEnd {
            m,
            actor: self.id,
            how: How::Normal,
            ret,
        });
        drop(pay);
        ret
    }
}

/// Handled without leaving a trace.
#[derive(Clone)]
pub struct Tick;

impl Handler<Tick> for Act {
    type Return = ();
    async fn handle(&mut self, _: Tick, _: &mut Context<Self>) {}
}

impl Handler<Uni> for Act {
    type Return = u64;
    async fn handle(&mut self, m: Uni, ctx: &mut Context<Self>) -> u64 {
        self.body(m.0, ctx).await
    }
}

impl Handler<Unit> for Act {
    type Return = ();
    async fn handle(&mut self, m: Unit, ctx: &mut Context<Self>) {
        self.body(m.0, ctx).await;
    }
}

impl Handler<Bc> for Act {
    type Return = ();
    async fn handle(&mut self, m: Bc, ctx: &mut Context<Self>) {
        self.body(m.0, ctx).await;
    }
}

pub fn stop_val(actor: ActorId) -> u64 {
    actor as u64 + 100
}
pub fn err_val(actor: ActorId) -> u64 {
    actor as u64 + 200
}

/// What an actor returns in the end. The spawn helpers only take actors which return nothing.
#[cfg(not(feature = "helpers"))]
mod ret {
    pub type Ret = u64;
    pub fn ret(v: u64) -> Ret {
        v
    }
    pub fn unret(r: Ret) -> u64 {
        r
    }
}
#[cfg(feature = "helpers")]
mod ret {
    pub type Ret = ();
    pub fn ret(_: u64) -> Ret {}
    pub fn unret(_: Ret) -> u64 {
        0
    }
}
use ret::*;

impl Actor for Act {
    type Stop = Ret;

    async fn started(&mut self, mailbox: &Mailbox<Self>) -> Result<(), Ret> {
        crate::helpers::on_executor(self.id);
        log(Ev::ActStart {
            actor: self.id,
            mb: self.mb,
        });
        let spec = book().actors[self.id as usize].clone();
        let _ = mailbox.address();
        if let Some(i) = spec.start {
            inner_fut(i).await;
        }
        match spec.start_nest {
            Some((true, i)) => self.join_on(mailbox, i).await,
            Some((false, i)) => self.select_on(mailbox, i).await,
            None => {}
        }
        if spec.start_panic {
            with(|w| w.stats.panics += 1);
            log(Ev::Panicking { actor: self.id });
            panic!("{} in started", USER_PANIC);
        }
        sim::point();
        log(Ev::ActStarted {
            actor: self.id,
            ok: spec.start_ok,
        });
        if spec.start_ok {
            Ok(())
        } else {
            Err(ret(err_val(self.id)))
        }
    }

    async fn stopped(self) -> Ret {
        crate::helpers::on_executor(self.id);
        log(Ev::StopCb { actor: self.id });
        let spec = book().actors[self.id as usize].clone();
        sim::point();
        if let Some(i) = spec.stop {
            inner_fut(i).await;
        }
        log(Ev::StopCbEnd { actor: self.id });
        ret(stop_val(self.id))
    }
}

impl Act {
    async fn select_on(&mut self, mailbox: &Mailbox<Act>, i: Inner) {
        let n = nested(i, if self.caught { None } else { Some(self.id) });
        let id = n.id;
        let aid = self.id;
        log(Ev::NestB {
            actor: aid,
            id,
            join: false,
            never: i == Inner::Never,
            depth: self.depth,
            busy: busy(i),
        });
        match xtra::select(mailbox, self, n).await {
            FEither::Left(v) => log(Ev::NestE {
                actor: aid,
                id,
                left: true,
                val: v,
            }),
            FEither::Right(mut rest) => {
                log(Ev::NestE {
                    actor: aid,
                    id,
                    left: false,
                    val: 0,
                });
                if rest.id != id {
                    sim::fail("C21", "select handed back a different future");
                }
                if rest.done {
                    sim::fail("C21", "select handed back a completed future");
                }
                if i != Inner::Never && id % 2 == 0 {
                    let v = (&mut rest).await;
                    if v != id as u64 + 5000 {
                        sim::fail("C21", "future handed back by select is broken");
                    }
                }
            }
        }
    }

    async fn join_on(&mut self, mailbox: &Mailbox<Act>, i: Inner) {
        let i = if i == Inner::Never { Inner::Yield(2) } else { i };
        let n = nested(i, if self.caught { None } else { Some(self.id) });
        let id = n.id;
        let aid = self.id;
        log(Ev::NestB {
            actor: aid,
            id,
            join: true,
            never: false,
            depth: self.depth,
            busy: busy(i),
        });
        let v = xtra::join(mailbox, self, n).await;
        log(Ev::NestE {
            actor: aid,
            id,
            left: true,
            val: v,
        });
    }
}

// ---------------------------------------------------------------- running actors

/// Start the actor with the given id (its behaviour is in the book) on a mailbox.
pub fn start_actor(id: ActorId, mut mb: Mb) {
    let mailbox = mb.inner.take().unwrap();
    let mbid = mb.id;
    let kind = book().actors[id as usize].kind.clone();
    let act = Act {
        id,
        caught: false,
        depth: 0,
        mb: mbid,
    };
    log(Ev::Note {
        s: "actor on mailbox",
        a: id as u64,
        b: mbid as u64,
    });
    let (mailbox, act) = match crate::helpers::start(&kind, mailbox, act) {
        Ok(()) => return,
        Err(x) => x,
    };
    let ret: Rc<RefCell<u64>> = Rc::new(RefCell::new(0));
    let ret2 = ret.clone();
    let fut: Fut = match kind {
        LoopKind::Run => Box::pin(async move {
            let v = xtra::run(mailbox, act).await;
            *ret2.borrow_mut() = unret(v);
        }),
        LoopKind::YieldOnce => Box::pin(async move {
            let v = yield_loop(mailbox, act).await;
            *ret2.borrow_mut() = v;
        }),
        LoopKind::Custom(plan) => Box::pin(async move {
            let v = custom_loop(mailbox, act, plan).await;
            *ret2.borrow_mut() = v;
        }),
        LoopKind::SelectTop(i) => Box::pin(async move {
            let v = select_top(mailbox, act, i).await;
            *ret2.borrow_mut() = v;
        }),
    };
    run_actor(id, fut, ret);
}

/// The task which runs an actor.
pub fn run_actor(id: ActorId, fut: Fut, ret: Rc<RefCell<u64>>) -> u32 {
    let t = spawn(
        format!("actor{}", id),
        fut,
        Some(Box::new(move |how| {
            log(Ev::RunEnd {
                actor: id,
                how,
                ret: *ret.borrow(),
            });
        })),
        Some(Box::new(move || log(Ev::ActGone { actor: id }))),
    );
    env(|e| {
        while e.act_task.len() <= id as usize {
            e.act_task.push(None);
        }
        e.act_task[id as usize] = Some(t);
    });
    t
}

async fn yield_loop(mailbox: Mailbox<Act>, mut act: Act) -> u64 {
    if let Err(e) = act.started(&mailbox).await {
        return unret(e);
    }
    while xtra::yield_once(&mailbox, &mut act).await.is_continue() {}
    unret(act.stopped().await)
}

async fn select_top(mailbox: Mailbox<Act>, mut act: Act, i: Inner) -> u64 {
    if let Err(e) = act.started(&mailbox).await {
        return unret(e);
    }
    let n = nested(i, Some(act.id));
    let id = n.id;
    let aid = act.id;
    log(Ev::NestB {
        actor: aid,
        id,
        join: false,
        never: i == Inner::Never,
        depth: act.depth,
        busy: busy(i),
    });
    match xtra::select(&mailbox, &mut act, n).await {
        FEither::Left(v) => {
            log(Ev::NestE {
                actor: aid,
                id,
                left: true,
                val: v,
            });
            while xtra::yield_once(&mailbox, &mut act).await.is_continue() {}
        }
        FEither::Right(_) => log(Ev::NestE {
            actor: aid,
            id,
            left: false,
            val: 0,
        }),
    }
    unret(act.stopped().await)
}

/// A receive future; it must say that it is finished exactly once it has yielded a message.
pub struct Next<F>(F);

impl<F: FusedFuture + Unpin> Next<F> {
    pub fn of(f: F) -> Self {
        let f = Next(f);
        f.says(false);
        f
    }

    fn says(&self, over: bool) {
        if self.0.is_terminated() != over {
            sim::fail(
                "C05",
                if over {
                    "a receive future that yielded its message does not count as finished"
                } else {
                    "a receive future that has yet to yield a message counts as finished"
                },
            );
        }
    }
}

impl<F: FusedFuture + Unpin> Future for Next<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let p = Pin::new(&mut self.0).poll(cx);
        self.says(p.is_ready());
        p
    }
}

/// Polls a future once with the task's waker.
pub struct PollOnce<'a, F>(pub &'a mut F);

impl<F: Future + Unpin> Future for PollOnce<'_, F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut *self.0).poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => Poll::Ready(None),
        }
    }
}

/// Ask a dispatch future for its span (instrumented build).
macro_rules! dispatch_span {
    ($id:expr, $disp:expr, $first:expr) => {
        #[cfg(feature = "instr")]
        crate::span::of_dispatch($id, $disp.as_mut().get_mut().span().id().map(|i| i.into_u64()), $first)
    };
}

/// A receive future that is dropped (also) while unwinding.
struct RecvGuard<F>(ActorId, Option<F>);

impl<F> Drop for RecvGuard<F> {
    fn drop(&mut self) {
        if let Some(f) = self.1.take() {
            cancel(self.0, f);
        }
    }
}

/// Polls a future until it is done or panicked on purpose.
struct Catching<'a, F: ?Sized>(Pin<&'a mut F>);

impl<F: Future + ?Sized> Future for Catching<'_, F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        match sim::catch(|| self.0.as_mut().poll(cx)) {
            Ok(p) => p.map(Some),
            Err(e) if e.starts_with(USER_PANIC) => Poll::Ready(None),
            Err(e) => sim::fail("panic", &format!("a dispatch panicked: {}", e)),
        }
    }
}

fn cancel<F>(id: ActorId, f: F) {
    log(Ev::RecvDropB { actor: id });
    with(|w| w.stats.recv_cancels += 1);
    drop(f);
    log(Ev::RecvDropE { actor: id });
}

async fn custom_loop(mailbox: Mailbox<Act>, mut act: Act, plan: Vec<(RecvPlan, DispPlan)>) -> u64 {
    if let Err(e) = act.started(&mailbox).await {
        return unret(e);
    }
    let mut step = 0;
    let id = act.id;
    loop {
        let (rp, dp) = plan
            .get(step)
            .copied()
            .unwrap_or((RecvPlan::Await, DispPlan::Await));
        step += 1;
        let mut recv = Box::pin(Next::of(mailbox.next()));
        log(Ev::RecvNew { actor: id });
        let msg = match rp {
            RecvPlan::Await => recv.await,
            RecvPlan::Unpolled => {
                cancel(id, recv);
                continue;
            }
            RecvPlan::Two => {
                let mut second = Box::pin(Next::of(mailbox.next()));
                log(Ev::RecvNew { actor: id });
                match PollOnce(&mut second).await {
                    Some(m) => {
                        cancel(id, recv);
                        m
                    }
                    None => match PollOnce(&mut recv).await {
                        Some(m) => {
                            cancel(id, second);
                            m
                        }
                        None => match future::select(recv, second).await {
                            FEither::Left((m, rest)) => {
                                cancel(id, rest);
                                m
                            }
                            FEither::Right((m, rest)) => {
                                cancel(id, rest);
                                m
                            }
                        },
                    },
                }
            }
            RecvPlan::HoldDrop(i) | RecvPlan::HoldFinal(i) => match PollOnce(&mut recv).await {
                Some(m) => m,
                None if matches!(i, Inner::Boom(_)) => {
                    let holder = async {
                        let _guard = RecvGuard(id, Some(recv));
                        inner_fut(i).await;
                    };
                    let mut holder = Box::pin(holder);
                    Catching(holder.as_mut()).await;
                    continue;
                }
                None => {
                    inner_fut(i).await;
                    if matches!(rp, RecvPlan::HoldFinal(_)) {
                        match PollOnce(&mut recv).await {
                            Some(m) => m,
                            None => {
                                cancel(id, recv);
                                continue;
                            }
                        }
                    } else {
                        cancel(id, recv);
                        continue;
                    }
                }
            },
        };
        log(Ev::RecvGot { actor: id });
        sim::point();
        match dp {
            DispPlan::Await => {
                let flow = msg.dispatch_to(&mut act).await;
                log(Ev::DispEnd {
                    actor: id,
                    cont: flow.is_continue(),
                });
                if flow.is_break() {
                    break;
                }
            }
            DispPlan::Catch => {
                act.caught = true;
                let mut disp = Box::pin(msg.dispatch_to(&mut act));
                let flow = Catching(disp.as_mut()).await;
                if flow.is_none() {
                    log(Ev::DispDropB { actor: id });
                }
                drop(disp);
                act.caught = false;
                match flow {
                    Some(flow) => {
                        log(Ev::DispEnd {
                            actor: id,
                            cont: flow.is_continue(),
                        });
                        if flow.is_break() {
                            break;
                        }
                    }
                    None => {
                        log(Ev::DispDropE { actor: id });
                        act.depth = 0;
                    }
                }
            }
            DispPlan::DropMsg => {
                log(Ev::MsgDropB { actor: id });
                drop(msg);
                log(Ev::MsgDropE { actor: id });
            }
            DispPlan::Cancel(_) | DispPlan::Timeout(_) => {
                let mut disp = Box::pin(msg.dispatch_to(&mut act));
                let ask = id as usize + step;
                if ask % 3 != 0 {
                    dispatch_span!(id, disp, true);
                }
                let res = match dp {
                    DispPlan::Cancel(n) => {
                        let mut k = 0;
                        future::poll_fn(|cx| match {
                            if k > 0 && ask % 2 != 0 {
                                dispatch_span!(id, disp, false);
                            }
                            disp.as_mut().poll(cx)
                        } {
                            Poll::Ready(f) => Poll::Ready(Some(f)),
                            Poll::Pending => {
                                k += 1;
                                if k > n {
                                    Poll::Ready(None)
                                } else {
                                    Poll::Pending
                                }
                            }
                        })
                        .await
                    }
                    DispPlan::Timeout(d) => {
                        match future::select(disp.as_mut(), Sleep::new(d)).await {
                            FEither::Left((f, _)) => Some(f),
                            FEither::Right(_) => None,
                        }
                    }
                    _ => unreachable!(),
                };
                if ask % 2 != 0 {
                    dispatch_span!(id, disp, false);
                }
                crate::span::dispatched(id);
                match res {
                    Some(flow) => {
                        drop(disp);
                        log(Ev::DispEnd {
                            actor: id,
                            cont: flow.is_continue(),
                        });
                        if flow.is_break() {
                            break;
                        }
                    }
                    None => {
                        with(|w| w.stats.disp_cancels += 1);
                        log(Ev::DispDropB { actor: id });
                        drop(disp);
                        log(Ev::DispDropE { actor: id });
                        act.depth = 0;
                    }
                }
            }
        }
    }
    unret(act.stopped().await)
}
