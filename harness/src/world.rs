//! State of one simulated run: event log, tasks, wakers, timers, gates.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use spin::sim::{self, Why};

pub type OpId = u32;
pub type MsgId = u32;
pub type ActorId = u32;
pub type MbId = u32;

pub const NO_MSG: MsgId = u32::MAX;

/// What a logged future is.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    /// A send resolving to the handler's result.
    Send,
    /// A detached send resolving once queued.
    Det,
    /// The result of a detached send.
    Res,
    Bc,
    Join,
    Scoped,
    /// One item going through a sink.
    Sink,
    /// A receive future (lock-step).
    Recv,
    /// A dispatch (lock-step).
    Disp,
}

/// How a polled operation answered.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Pending,
    /// A value (handler result, or 0).
    Val(u64),
    /// A detached send was queued.
    Queued,
    Disconnected,
    Interrupted,
    /// Future of another kind completed (join, sink stage).
    Done,
    /// Scoped task gave up.
    Gone,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Normal,
    Panic,
    Dropped,
}

/// Events of a run, in the order in which they happened.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// An operation's future was created. `strong`: it may hold a strong address until first polled.
    OpNew { op: OpId, strong: bool, role: Role, m: MsgId },
    PollB { op: OpId },
    PollE { op: OpId, out: Out },
    DropB { op: OpId },
    DropE { op: OpId },
    HStart { m: MsgId, copy: u32, actor: ActorId, depth: u32 },
    HEnd { m: MsgId, actor: ActorId, how: How, ret: u64 },
    PayClone { m: MsgId, copy: u32 },
    PayDrop { m: MsgId, copy: u32 },
    ActStart { actor: ActorId, mb: MbId },
    ActStarted { actor: ActorId, ok: bool },
    StopCb { actor: ActorId },
    StopCbEnd { actor: ActorId },
    /// The run (or custom loop) ended: value returned, or panic / abort.
    RunEnd { actor: ActorId, how: How, ret: u64 },
    /// Everything the run owned is gone.
    ActGone { actor: ActorId },
    Abort { actor: ActorId },
    /// The actor's own code is about to panic.
    Panicking { actor: ActorId },
    StopSelf { actor: ActorId, m: MsgId },
    StopAllB { actor: ActorId },
    StopAllE { actor: ActorId },
    AddB { strong: bool },
    AddE { strong: bool, ok: bool },
    DelB { strong: bool },
    DelE { strong: bool },
    UpB { q: u32 },
    UpE { q: u32, some: bool },
    ConnB { q: u32 },
    ConnE { q: u32, res: bool },
    LenB { q: u32 },
    LenE { q: u32, len: usize, empty: bool },
    MbAddB { mb: MbId },
    MbAddE { mb: MbId },
    MbDelB { mb: MbId },
    MbDelE { mb: MbId },
    /// Receive future of a custom loop.
    RecvNew { actor: ActorId },
    RecvDropB { actor: ActorId },
    RecvDropE { actor: ActorId },
    RecvGot { actor: ActorId },
    /// A received message was thrown away by the user before dispatch (B/E).
    MsgDropB { actor: ActorId },
    MsgDropE { actor: ActorId },
    DispEnd { actor: ActorId, cont: bool },
    DispDropB { actor: ActorId },
    DispDropE { actor: ActorId },
    /// Nested select/join inside handler `m`.
    NestB { actor: ActorId, id: u32, join: bool, never: bool, depth: u32, busy: bool },
    NestPoll { id: u32, ready: bool },
    NestE { actor: ActorId, id: u32, left: bool, val: u64 },
    InnerPoll { op: OpId, ready: bool },
    GateOpen { g: u32 },
    Phase { n: u32 },
    /// The waker of the most recent poll of a pending operation was called.
    Woken { op: OpId },
    /// The next operation of a lock-step program.
    LOp { id: u32 },
    Note { s: &'static str, a: u64, b: u64 },
    /// Handler `m`'s span does not descend from the sender's (instrumented build).
    Span { m: MsgId, ok: bool },
}

pub struct Task {
    pub fid: Cell<u32>,
    pub woken: Cell<bool>,
    pub done: Cell<bool>,
    pub abort: Cell<bool>,
    pub dropping: Cell<bool>,
    pub name: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// Linearizability mode: sequential executions, concurrent ones, programs whose order is observable,
    /// programs compared with split orders.
    pub lin: [u64; 4],
    pub polls: u64,
    pub spurious: u64,
    pub stale_wakes: u64,
    pub wakes: u64,
    pub aborts: u64,
    pub panics: u64,
    pub recv_cancels: u64,
    pub recv_cancels_assigned: u64,
    pub disp_cancels: u64,
    pub send_cancels: u64,
    pub timeouts: u64,
    pub mb_drops: u64,
    pub ops: u64,
    pub handlers: u64,
    pub broadcasts: u64,
    pub waits: u64,
    pub migrations: u64,
    pub stops: u64,
    pub nested: u64,
    pub helpers: u64,
    pub checks: u64,
}

pub struct World {
    pub run: u64,
    pub log: Vec<Ev>,
    pub tasks: Vec<Rc<Task>>,
    pub timers: BTreeMap<u32, Arc<SleepCell>>,
    pub next_timer: u32,
    pub gates: Vec<(bool, Vec<Waker>)>,
    pub spurious_num: u32,
    pub stats: Stats,
    pub next_mb: u32,
    pub next_q: u32,
    pub next_nest: u32,
    pub next_op: u32,
    pub copies: BTreeMap<MsgId, u32>,
    /// Wakers handed to the code under test and not dropped yet.
    pub live_wakers: i64,
}

thread_local! {
    pub static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

pub fn have_world() -> bool {
    W.with(|w| w.borrow().is_some())
}

pub fn log(e: Ev) {
    W.with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            w.log.push(e)
        }
    })
}

pub fn new_world(run: u64, spurious_num: u32, gates: usize) -> World {
    World {
        run,
        log: Vec::with_capacity(512),
        tasks: Vec::new(),
        timers: BTreeMap::new(),
        next_timer: 0,
        gates: (0..gates).map(|_| (false, Vec::new())).collect(),
        spurious_num,
        stats: Stats::default(),
        next_mb: 0,
        next_q: 0,
        next_nest: 0,
        next_op: 0,
        copies: BTreeMap::new(),
        live_wakers: 0,
    }
}

// ---------------------------------------------------------------- tasks

struct TaskWaker {
    id: u32,
    run: u64,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !have_world() {
            return;
        }
        let t = with(|w| {
            if w.run == self.run {
                w.stats.wakes += 1;
                Some(w.tasks[self.id as usize].clone())
            } else {
                None
            }
        });
        if let Some(t) = t {
            t.woken.set(true);
            sim::unblock(t.fid.get(), Why::Wake);
            sim::point();
        }
    }
}

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// What the executor reports when a task ends.
pub type OnEnd = Box<dyn FnOnce(How)>;

pub const USER_PANIC: &str = "xsim user panic";

/// Spawn a task: a fiber that polls `fut` whenever it is woken.
pub fn spawn(name: String, fut: Fut, on_end: Option<OnEnd>, gone: Option<Box<dyn FnOnce()>>) -> u32 {
    let t = Rc::new(Task {
        fid: Cell::new(u32::MAX),
        woken: Cell::new(false),
        done: Cell::new(false),
        abort: Cell::new(false),
        dropping: Cell::new(false),
        name: name.clone(),
    });
    let (id, run) = with(|w| {
        w.tasks.push(t.clone());
        (w.tasks.len() as u32 - 1, w.run)
    });
    let t2 = t.clone();
    let body = move || {
        let mut fut = Some(fut);
        let waker = Waker::from(Arc::new(TaskWaker { id, run }));
        let mut cx = Context::from_waker(&waker);
        let how;
        loop {
            if t2.abort.get() {
                how = How::Dropped;
                break;
            }
            t2.woken.set(false);
            with(|w| w.stats.polls += 1);
            let spans = crate::span::depth();
            let polled = sim::catch(|| fut.as_mut().unwrap().as_mut().poll(&mut cx));
            if crate::span::depth() != spans {
                sim::fail("C24", &format!("{}: a span stayed entered after a poll", t2.name));
            }
            match polled {
                Ok(Poll::Ready(())) => {
                    how = How::Normal;
                    break;
                }
                Ok(Poll::Pending) => {}
                Err(p) => {
                    if !p.starts_with(USER_PANIC) {
                        sim::fail("panic", &format!("{} panicked: {}", t2.name, p));
                    }
                    how = How::Panic;
                    break;
                }
            }
            sim::point();
            let sp = with(|w| w.spurious_num);
            if sp > 0 && sim::fault(2, sp) == 1 {
                with(|w| w.stats.spurious += 1);
                continue;
            }
            while !t2.woken.get() && !t2.abort.get() {
                sim::block(Why::Wake);
            }
        }
        if let Some(f) = on_end {
            f(how);
        }
        t2.dropping.set(true);
        let f = fut.take();
        if let Err(p) = sim::catch(move || drop(f)) {
            sim::fail("panic", &format!("{} panicked while being dropped: {}", t2.name, p));
        }
        drop(waker);
        if let Some(f) = gone {
            f();
        }
        t2.done.set(true);
    };
    let fid = sim::spawn(name, Box::new(body));
    t.fid.set(fid);
    id
}

/// Ask for a task to be dropped at its next suspension.
pub fn abort(id: u32) {
    let t = with(|w| w.tasks[id as usize].clone());
    t.abort.set(true);
    sim::unblock(t.fid.get(), Why::Wake);
    sim::point();
}

// ---------------------------------------------------------------- sleeping

pub struct SleepCell {
    fired: AtomicBool,
    waker: std::sync::Mutex<Option<Waker>>,
}

pub fn timer_hook(token: u32) {
    let c = with(|w| w.timers.remove(&token));
    if let Some(c) = c {
        c.fired.store(true, Ordering::Relaxed);
        let w = c.waker.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// A timer on the simulated clock.
pub struct Sleep {
    cell: Option<Arc<SleepCell>>,
    d: u64,
}

impl Sleep {
    pub fn new(d: u64) -> Sleep {
        Sleep { cell: None, d }
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.cell.is_none() {
            let c = Arc::new(SleepCell {
                fired: AtomicBool::new(false),
                waker: std::sync::Mutex::new(None),
            });
            let tok = with(|w| {
                let t = w.next_timer;
                w.next_timer += 1;
                w.timers.insert(t, c.clone());
                t
            });
            sim::timer(self.d, tok);
            self.cell = Some(c);
        }
        let c = self.cell.as_ref().unwrap();
        if c.fired.load(Ordering::Relaxed) {
            return Poll::Ready(());
        }
        *c.waker.lock().unwrap() = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Yields to the executor `0` times.
pub struct YieldN(pub u32);

impl Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// Waits for a gate to be opened.
pub struct Gate(pub u32);

impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = cx.waker().clone();
        with(|wd| {
            let g = &mut wd.gates[self.0 as usize];
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(w);
                Poll::Pending
            }
        })
    }
}

pub fn open_gate(g: u32) {
    let ws = with(|w| {
        let n = w.gates.len();
        let gt = &mut w.gates[g as usize % n];
        gt.0 = true;
        std::mem::take(&mut gt.1)
    });
    log(Ev::GateOpen { g });
    for w in ws {
        w.wake();
    }
}

// ---------------------------------------------------------------- probe

/// State shared by the wakers handed out for one probed future.
pub struct ProbeCell {
    gen: AtomicU64,
    pub woken: AtomicBool,
}

struct ProbeWaker {
    op: OpId,
    cell: Arc<ProbeCell>,
    gen: u64,
    run: u64,
    parent: Waker,
}

impl Drop for ProbeWaker {
    fn drop(&mut self) {
        if have_world() {
            with(|w| {
                if w.run == self.run {
                    w.live_wakers -= 1
                }
            });
        }
    }
}

impl Wake for ProbeWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        sim::point();
        if self.cell.gen.load(Ordering::Relaxed) == self.gen {
            self.cell.woken.store(true, Ordering::Relaxed);
            log(Ev::Woken { op: self.op });
            self.parent.wake_by_ref();
        } else if have_world() {
            // The Future contract: only the waker of the most recent poll counts.
            with(|w| w.stats.stale_wakes += 1);
        }
    }
}

/// Wraps a future of the code under test: logs each poll, and hands out a fresh waker per poll,
/// ignoring wake-ups through older ones.
pub struct Probe<F> {
    pub op: OpId,
    pub m: MsgId,
    pub cell: Arc<ProbeCell>,
    inner: Option<F>,
    pub done: bool,
}

pub trait ToOut {
    fn to_out(&self) -> Out;
}

impl<F> Probe<F> {
    pub fn new(role: Role, m: MsgId, strong: bool, inner: F) -> Probe<F> {
        let op = with(|w| {
            w.next_op += 1;
            w.stats.ops += 1;
            w.next_op - 1
        });
        log(Ev::OpNew { op, strong, role, m });
        Probe {
            op,
            m,
            cell: Arc::new(ProbeCell {
                gen: AtomicU64::new(0),
                woken: AtomicBool::new(false),
            }),
            inner: Some(inner),
            done: false,
        }
    }

    pub fn woken(&self) -> bool {
        self.cell.woken.load(Ordering::Relaxed)
    }
}

impl<F> Future for Probe<F>
where
    F: Future + Unpin,
    F::Output: ToOut,
{
    type Output = F::Output;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = self.get_mut();
        let gen = this.cell.gen.fetch_add(1, Ordering::Relaxed) + 1;
        this.cell.woken.store(false, Ordering::Relaxed);
        log(Ev::PollB { op: this.op });
        sim::point();
        let run = with(|w| {
            w.live_wakers += 1;
            w.run
        });
        let waker = Waker::from(Arc::new(ProbeWaker {
            op: this.op,
            run,
            cell: this.cell.clone(),
            gen,
            parent: cx.waker().clone(),
        }));
        let mut cx2 = Context::from_waker(&waker);
        let inner = this.inner.as_mut().expect("probe polled after drop");
        let res = crate::span::in_sender(this.m, || Pin::new(inner).poll(&mut cx2));
        let out = match &res {
            Poll::Pending => Out::Pending,
            Poll::Ready(v) => v.to_out(),
        };
        this.done = res.is_ready();
        log(Ev::PollE { op: this.op, out });
        res
    }
}

impl<F> Drop for Probe<F> {
    fn drop(&mut self) {
        if !have_world() {
            return;
        }
        log(Ev::DropB { op: self.op });
        sim::point();
        self.inner = None;
        log(Ev::DropE { op: self.op });
    }
}
