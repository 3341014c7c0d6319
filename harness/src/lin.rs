//! Linearizability of concurrent operations.
//!
//! A program is a random history of single operations, which leads one mailbox into some state, and
//! then a race: two or three simulated threads perform one or two operations each at the same time.
//! What can be observed then — the answers, lost wake-ups, the queries, the order in which everything
//! left is handled, what was destroyed, what is left in the end — has to be what it would be, had the
//! operations of the race happened one after the other in some order. The allowed observations come
//! from the real code itself, run once for each such order; that single operations do the right
//! thing one at a time is for the lock-step model to say.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};

use futures_util::FutureExt;
use spin::sim;
use xtra::prelude::*;
use xtra::Receiver;

use crate::act::*;
use crate::check::{from_failure, Violation};
use crate::exec::{self, RunOut};
use crate::lock::{DispFut, Flow, Msg, RecvFut};
use crate::rng::{mix, Rng};
use crate::world::*;

const GATES: u32 = 4;
/// Concurrent schedules tried per program.
const TRIES: u64 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Send,
    Bcast,
    /// Create a send or broadcast without polling it.
    Unpolled,
    PollOp,
    DropOp,
    /// Create a receive future and poll it.
    Recv,
    RecvUnpolled,
    RecvPoll,
    RecvDrop,
    Disp,
    DispPoll,
    DispDrop,
    MsgDrop,
    /// Receive and dispatch what comes out.
    RecvDisp,
    Dup,
    Weak,
    DropH,
    Upgrade,
    MbClone,
    MbDrop,
    Join,
    JoinPoll,
    JoinDrop,
    Len,
    Conn,
    Gate,
    /// Drop all strong addresses but one (not in a race).
    OneH,
    /// Drop all mailboxes but one (not in a race).
    OneMb,
}

/// Kind, weight in the history, weight in the race.
const KINDS: &[(K, u32, u32)] = &[
    (K::Send, 30, 14),
    (K::Bcast, 16, 10),
    (K::Unpolled, 4, 0),
    (K::PollOp, 4, 10),
    (K::DropOp, 3, 8),
    (K::Recv, 16, 14),
    (K::RecvUnpolled, 3, 0),
    (K::RecvPoll, 4, 10),
    (K::RecvDrop, 3, 8),
    (K::Disp, 6, 6),
    (K::DispPoll, 1, 2),
    (K::DispDrop, 1, 1),
    (K::MsgDrop, 1, 3),
    (K::RecvDisp, 8, 0),
    (K::Dup, 3, 2),
    (K::Weak, 3, 1),
    (K::DropH, 8, 10),
    (K::Upgrade, 1, 4),
    (K::MbClone, 5, 4),
    (K::MbDrop, 5, 8),
    (K::Join, 3, 4),
    (K::JoinPoll, 1, 3),
    (K::JoinDrop, 1, 1),
    (K::Len, 0, 3),
    (K::Conn, 0, 3),
    (K::Gate, 1, 0),
    (K::OneH, 1, 0),
    (K::OneMb, 1, 0),
];

#[derive(Clone, Debug)]
pub struct NOp {
    pub id: u32,
    pub kind: K,
    pub r: u64,
}

#[derive(Clone, Debug)]
pub struct NProg {
    pub cap: Option<usize>,
    pub pre: Vec<NOp>,
    pub race: Vec<Vec<NOp>>,
    pub msgs: Vec<MsgSpec>,
    pub prio_detached: u64,
}

pub fn generate(prop: &str, seed: u64) -> NProg {
    let mut r = Rng::new(seed ^ 0x11EA);
    let caps = [None, Some(0), Some(1), Some(1), Some(1), Some(2), Some(2), Some(3)];
    let cap = if matches!(prop, "C08" | "C09" | "C11") {
        *r.pick(&caps[1..])
    } else {
        *r.pick(&caps)
    };
    let n = match r.below(4) {
        0 => r.range(1, 5),
        1 => r.range(3, 9),
        2 => r.range(5, 14),
        _ => r.range(8, 24),
    } as u32;
    let boost: &[K] = match prop {
        "C05" => &[K::Recv, K::RecvPoll, K::RecvDrop],
        "C09" | "C08" => &[K::Send, K::Bcast, K::DropOp, K::Recv],
        "C10" | "C11" => &[K::Bcast, K::MbClone, K::MbDrop, K::Recv],
        "C15" | "C16" => &[K::Upgrade, K::DropH, K::Dup, K::Recv],
        "C17" | "C18" => &[K::Join, K::JoinPoll, K::MbDrop, K::DropH, K::Conn],
        "C13" | "C14" => &[K::Disp, K::Recv, K::RecvPoll, K::Send],
        "C23" => &[K::Len, K::Send, K::Recv],
        _ => &[],
    };
    let weights = |r: &mut Rng, race: bool| -> Vec<u32> {
        KINDS
            .iter()
            .map(|(k, a, b)| {
                let w = if race { *b } else { *a };
                let w = if boost.contains(k) { w * 2 } else { w };
                match r.below(5) {
                    0 => w * 5,
                    1 => w * 20,
                    _ => w * 10,
                }
            })
            .collect()
    };
    let mut wp = weights(&mut r, false);
    let mut wr = weights(&mut r, true);
    // Half of the races are between operations which have to do with each other.
    let stops = r.pct(if prop == "C14" { 40 } else { 6 });
    let theme: &[K] = match r.below(14) {
        // Handlers which stop the actor or all of them, against those about to wait.
        _ if stops => &[K::Disp, K::Recv, K::RecvPoll, K::Send],
        0 => &[K::Send, K::Recv, K::RecvDrop, K::RecvPoll],
        1 => &[K::Bcast, K::Recv, K::RecvPoll, K::RecvDrop, K::MbClone, K::MbDrop],
        2 => &[K::Send, K::PollOp, K::DropOp, K::Recv, K::Bcast],
        3 => &[K::DropH, K::Upgrade, K::Recv, K::Join, K::Conn, K::Send],
        4 => &[K::MbDrop, K::Send, K::Bcast, K::Join, K::Conn, K::Recv],
        5 => &[K::DropH, K::MbDrop, K::Upgrade, K::PollOp, K::RecvPoll],
        6 => &[K::Len, K::Send, K::Recv, K::Bcast, K::DropOp],
        _ => &[],
    };
    let mut cap = cap;
    if theme.contains(&K::DropOp) && r.pct(60) {
        // Sends which wait.
        cap = Some(r.range(0, 1) as usize);
        for (i, k) in KINDS.iter().enumerate() {
            if matches!(k.0, K::Send | K::Bcast) {
                wp[i] *= 4;
            }
        }
    }
    if !theme.is_empty() {
        for (i, k) in KINDS.iter().enumerate() {
            if !theme.contains(&k.0) {
                wr[i] = 0;
            } else {
                wr[i] = wr[i].max(60);
            }
        }
    }
    let pre: Vec<NOp> = (0..n)
        .map(|i| NOp {
            id: i,
            kind: KINDS[r.weighted(&wp)].0,
            r: r.u64(),
        })
        .collect();
    let mut pre: Vec<NOp> = pre;
    if let Some(last) = pre.last_mut() {
        if theme.contains(&K::DropH) && r.pct(70) {
            last.kind = K::OneH;
        } else if theme.contains(&K::MbDrop) && r.pct(50) {
            last.kind = K::OneMb;
        }
    }
    // Ops of several steps (see `orders`) race only with one operation per thread.
    let shape: &[usize] = match r.below(10) {
        _ if stops => *r.pick(&[&[1, 1][..], &[1, 1, 1], &[1, 1, 1]]),
        0..=4 => &[1, 1],
        5 | 6 => &[1, 1, 1],
        7 | 8 => &[2, 1],
        _ => &[2, 2],
    };
    let mut id = n;
    // These only look at their own place, without the lock under which others write several of those.
    let own = |k: K| matches!(k, K::DropOp | K::PollOp | K::RecvPoll | K::RecvDrop | K::JoinPoll);
    let mut race: Vec<Vec<NOp>> = vec![];
    for k in shape {
        let mut v: Vec<NOp> = vec![];
        for _ in 0..*k {
            id += 1;
            let kind = loop {
                let k = KINDS[r.weighted(&wr)].0;
                let long = matches!(k, K::DropH | K::MbDrop | K::Disp | K::DispPoll | K::DispDrop | K::MsgDrop);
                if long && shape.iter().any(|n| *n > 1) {
                    continue;
                }
                if own(k) && v.iter().any(|o| own(o.kind)) {
                    if theme.iter().all(|k| own(*k)) {
                        break K::Recv;
                    }
                    continue;
                }
                break k;
            };
            v.push(NOp {
                id: id - 1,
                kind,
                r: r.u64(),
            });
        }
        race.push(v);
    }
    let prio_mode = r.below(3);
    let gate_pct = *r.pick(&[0, 5, 15]);
    let fault_pct = if stops { 50 } else { *r.pick(&[0, 0, 6, 15]) };
    // A handler which sends takes two steps as well.
    let handles = race.iter().flatten().any(|o| matches!(o.kind, K::Disp | K::DispPoll));
    let mut msgs = vec![];
    for i in 0..2 * id {
        let bc = if i < id {
            let all: Vec<&NOp> = pre.iter().chain(race.iter().flatten()).collect();
            all[i as usize].kind == K::Bcast || all[i as usize].kind == K::Unpolled && all[i as usize].r & 1 == 0
        } else {
            i % 2 == 1
        };
        let mut script = vec![];
        if r.pct(gate_pct) {
            script.push(HAct::Gate(r.below(GATES as u64) as u32));
        }
        if r.pct(fault_pct) {
            script.push(match r.below(5) {
                0 => HAct::StopSelf,
                1 | 2 => HAct::StopAll,
                3 => HAct::Panic,
                _ if i < id && !bc && !handles => {
                    let m2 = id + i;
                    if m2 % 2 == 1 {
                        HAct::SelfBcast(m2)
                    } else {
                        HAct::SelfSend(m2)
                    }
                }
                _ => HAct::StopAll,
            });
        }
        msgs.push(MsgSpec {
            kind: if bc { Kind::Bc } else { Kind::Uni },
            prio: match prio_mode {
                0 => None,
                1 => *r.pick(&[None, None, Some(1)]),
                _ => *r.pick(&[None, Some(1), Some(2), Some(3)]),
            },
            script,
            extra: ExtraSpec::None,
        });
    }
    NProg {
        cap,
        pre,
        race,
        msgs,
        prio_detached: r.u64(),
    }
}

pub fn units(p: &NProg) -> Vec<u32> {
    let mut v: Vec<u32> = p.pre.iter().map(|o| o.id).collect();
    v.extend(p.race.iter().flatten().map(|o| o.id));
    for (m, s) in p.msgs.iter().enumerate() {
        if !s.script.is_empty() {
            v.push(100_000 + m as u32);
        }
    }
    v
}

pub fn without(p: &NProg, drop: &[u32]) -> NProg {
    let mut q = p.clone();
    q.pre.retain(|o| !drop.contains(&o.id));
    for f in q.race.iter_mut() {
        f.retain(|o| !drop.contains(&o.id));
    }
    for (m, s) in q.msgs.iter_mut().enumerate() {
        if drop.contains(&(100_000 + m as u32)) {
            s.script.clear();
        }
    }
    q
}

// ---------------------------------------------------------------- objects

enum P {
    S(Probe<SendFut>),
    D(Probe<DetFut>),
    B(Probe<BcFut>),
    R(Probe<Receiver<u64>>),
}

struct O {
    p: P,
    polled: bool,
    done: bool,
}

struct Rv {
    g: u32,
    /// The mailbox it receives from.
    mb: std::rc::Weak<Mb>,
    p: Probe<RecvFut>,
    polled: bool,
}

struct Hand {
    g: u32,
    mb: std::rc::Weak<Mb>,
    msg: Msg,
}

struct D {
    g: u32,
    mb: std::rc::Weak<Mb>,
    p: Probe<DispFut>,
}

struct J {
    p: Probe<xtra::address::ActorJoinHandle>,
    polled: bool,
    done: bool,
}

enum Obj {
    H(Rc<H>),
    Mb(Rc<Mb>),
    R(Rv),
    Hand(Hand),
    D(D),
    O(O),
    J(J),
}

#[derive(Default)]
struct S {
    hs: BTreeMap<u32, Rc<H>>,
    mbs: BTreeMap<u32, Rc<Mb>>,
    recvs: BTreeMap<u32, Rv>,
    hands: BTreeMap<u32, Hand>,
    disps: BTreeMap<u32, D>,
    ops: BTreeMap<u32, O>,
    joins: BTreeMap<u32, J>,
    /// In the race to come, no address may be the last strong one.
    keep: bool,
}

type Hold = (Option<Rc<H>>, Option<Rc<Mb>>);

/// An operation with everything it works on.
enum A {
    Send(Rc<H>, u32, bool),
    Bcast(Rc<H>, u32),
    Unpolled(Rc<H>, u32, bool),
    PollOp(O),
    DropOp(O),
    Recv(Rc<Mb>),
    RecvUnpolled(Rc<Mb>),
    RecvPoll(Rv),
    RecvDrop(Rv),
    Disp(Hand),
    DispPoll(D),
    DispDrop(D),
    MsgDrop(Hand),
    RecvDisp(Rc<Mb>),
    Dup(Rc<H>),
    Weak(Rc<H>),
    DropH(Rc<H>),
    Upgrade(Rc<H>),
    MbClone(Rc<Mb>, u32),
    MbDrop(Rc<Mb>),
    Join(Rc<H>),
    JoinPoll(J),
    JoinDrop(J),
    Len(Rc<H>),
    Conn(Rc<H>),
    Gate(u32),
    Nothing,
}

fn poll_once<F>(p: &mut Probe<F>) -> Option<Result<F::Output, String>>
where
    F: Future + Unpin,
    F::Output: ToOut,
{
    let w = futures_util::task::noop_waker();
    let mut cx = Cx::from_waker(&w);
    match sim::catch(|| Pin::new(&mut *p).poll(&mut cx)) {
        Ok(Poll::Ready(v)) => Some(Ok(v)),
        Ok(Poll::Pending) => None,
        Err(e) => Some(Err(e)),
    }
}

fn text<T: ToOut>(r: &Option<Result<T, String>>) -> String {
    match r {
        None => "pending".into(),
        Some(Ok(v)) => format!("{:?}", v.to_out()),
        Some(Err(e)) if e.starts_with(USER_PANIC) => "the handler's panic".into(),
        Some(Err(e)) => format!("panic: {}", e),
    }
}

/// Poll; a completed detached send turns into its receiver.
fn poll_op(o: &mut O) -> String {
    if o.done {
        return "done".into();
    }
    o.polled = true;
    let mut next = None;
    let (t, done) = match &mut o.p {
        P::S(p) => {
            let r = poll_once(p);
            (text(&r), r.is_some())
        }
        P::B(p) => {
            let r = poll_once(p);
            (text(&r), r.is_some())
        }
        P::R(p) => {
            let r = poll_once(p);
            (text(&r), r.is_some())
        }
        P::D(p) => {
            let r = poll_once(p);
            let t = text(&r);
            let m = p.m;
            match r {
                Some(Ok(Ok(rx))) => {
                    next = Some(exec::res_probe(m, rx));
                    (t, false)
                }
                r => (t, r.is_some()),
            }
        }
    };
    if let Some(p) = next {
        o.p = P::R(p);
        o.polled = false;
    }
    o.done = done;
    t
}

fn op_woken(o: &O) -> bool {
    match &o.p {
        P::S(p) => p.woken(),
        P::D(p) => p.woken(),
        P::B(p) => p.woken(),
        P::R(p) => p.woken(),
    }
}

fn recv(mb: &Rc<Mb>) -> Rv {
    let f: RecvFut = Box::pin(Next::of(mb.inner.as_ref().unwrap().next()).map(|msg| {
        Msg(Box::new(move |g| {
            Box::pin(async move {
                let mut act = Act {
                    caught: false,
                    id: g,
                    depth: 0,
                    mb: g,
                };
                let f = msg.dispatch_to(&mut act).await;
                Flow(f.is_continue())
            }) as DispFut
        }))
    }));
    Rv {
        g: mb.id,
        mb: Rc::downgrade(mb),
        p: Probe::new(Role::Recv, NO_MSG, false, f),
        polled: false,
    }
}

fn create(h: &H, m: u32, det: bool) -> O {
    let spec = msg_spec(m);
    let p = if spec.kind == Kind::Bc {
        P::B(h.broadcast(m, spec.prio).unwrap())
    } else if det {
        P::D(h.send_detached(m, spec.prio))
    } else {
        P::S(h.send(m, spec.prio))
    };
    O {
        p,
        polled: false,
        done: false,
    }
}

fn dispatch(h: Hand) -> (String, Option<Obj>) {
    let g = h.g;
    let mb = h.mb.clone();
    let fut = (h.msg.0)(g);
    disp_poll(D {
        g,
        mb,
        p: Probe::new(Role::Disp, NO_MSG, false, fut),
    })
}

fn disp_poll(mut d: D) -> (String, Option<Obj>) {
    let r = poll_once(&mut d.p);
    let t = match &r {
        Some(Ok(Flow(c))) => if *c { "goes on" } else { "stops" }.to_string(),
        _ => text(&r),
    };
    match r {
        None => (t, Some(Obj::D(d))),
        _ => {
            drop(d);
            (t, None)
        }
    }
}

fn recv_poll(mut r: Rv) -> (String, Option<Obj>) {
    r.polled = true;
    match poll_once(&mut r.p) {
        None => ("pending".into(), Some(Obj::R(r))),
        Some(Ok(msg)) => {
            let g = r.g;
            let mb = r.mb.clone();
            drop(r);
            ("a message".into(), Some(Obj::Hand(Hand { g, mb, msg })))
        }
        Some(Err(e)) => {
            std::mem::forget(r);
            (format!("panic: {}", e), None)
        }
    }
}

/// Poll again what an operation of the race left pending, as the operation itself may have done.
fn again(kind: K, o: Obj, fresh: bool) -> (Option<String>, Option<Obj>) {
    match (kind, o) {
        (K::Send | K::Bcast | K::PollOp, Obj::O(mut o)) if !fresh => {
            let t = poll_op(&mut o);
            (Some(t), Some(Obj::O(o)))
        }
        (K::Recv | K::RecvPoll, Obj::R(mut r)) => {
            if fresh {
                r = recv(&r.mb.upgrade().unwrap());
            }
            let (t, o) = recv_poll(r);
            (Some(t), o)
        }
        (K::Join | K::JoinPoll, Obj::J(j)) if !fresh => {
            let (t, o) = perform(A::JoinPoll(j));
            (Some(t), o)
        }
        (_, o) => (None, Some(o)),
    }
}

/// Perform an operation; what it answered, and the objects it leaves.
fn perform(a: A) -> (String, Option<Obj>) {
    fn ok() -> String {
        "ok".into()
    }
    match a {
        A::Send(h, m, det) => {
            let mut o = create(&h, m, det);
            let t = poll_op(&mut o);
            (t, Some(Obj::O(o)))
        }
        A::Bcast(h, m) => {
            let mut o = create(&h, m, false);
            let t = poll_op(&mut o);
            (t, Some(Obj::O(o)))
        }
        A::Unpolled(h, m, det) => (ok(), Some(Obj::O(create(&h, m, det)))),
        A::PollOp(mut o) => {
            let t = poll_op(&mut o);
            (t, Some(Obj::O(o)))
        }
        A::DropOp(o) => {
            drop(o);
            (ok(), None)
        }
        A::Recv(mb) => recv_poll(recv(&mb)),
        A::RecvUnpolled(mb) => (ok(), Some(Obj::R(recv(&mb)))),
        A::RecvPoll(r) => recv_poll(r),
        A::RecvDrop(r) => {
            drop(r);
            with(|w| w.stats.recv_cancels += 1);
            (ok(), None)
        }
        A::Disp(h) => dispatch(h),
        A::DispPoll(d) => disp_poll(d),
        A::DispDrop(d) => {
            drop(d);
            with(|w| w.stats.disp_cancels += 1);
            (ok(), None)
        }
        A::MsgDrop(h) => {
            drop(h);
            (ok(), None)
        }
        A::RecvDisp(mb) => match recv_poll(recv(&mb)) {
            (_, Some(Obj::Hand(h))) => dispatch(h),
            x => x,
        },
        A::Dup(h) => (ok(), Some(Obj::H(Rc::new(h.dup())))),
        A::Weak(h) => (ok(), Some(Obj::H(Rc::new(h.downgrade())))),
        A::DropH(h) => {
            drop(h);
            (ok(), None)
        }
        A::Upgrade(h) => match h.upgrade() {
            Some(Some(n)) => ("upgraded".into(), Some(Obj::H(Rc::new(n)))),
            _ => ("not upgraded".into(), None),
        },
        A::MbClone(mb, id) => {
            let inner = Some(mb.inner.as_ref().unwrap().clone());
            (ok(), Some(Obj::Mb(Rc::new(Mb { id, inner }))))
        }
        A::MbDrop(mb) => {
            drop(mb);
            (ok(), None)
        }
        A::Join(h) => {
            let mut j = J {
                p: exec::join_probe(&h),
                polled: true,
                done: false,
            };
            let r = poll_once(&mut j.p);
            j.done = r.is_some();
            (text(&r), Some(Obj::J(j)))
        }
        A::JoinPoll(mut j) => {
            if j.done {
                return ("done".into(), Some(Obj::J(j)));
            }
            let r = poll_once(&mut j.p);
            j.polled = true;
            j.done = r.is_some();
            (text(&r), Some(Obj::J(j)))
        }
        A::JoinDrop(j) => {
            drop(j);
            (ok(), None)
        }
        A::Len(h) => (format!("length {}", h.len()), None),
        A::Conn(h) => (format!("connected {}", h.is_connected()), None),
        A::Gate(g) => {
            open_gate(g);
            (ok(), None)
        }
        A::Nothing => (ok(), None),
    }
}

fn pick<'a, T>(m: &'a BTreeMap<u32, T>, r: &mut Rng, f: impl Fn(&T) -> bool) -> Option<u32> {
    let ks: Vec<u32> = m.iter().filter(|x| f(x.1)).map(|x| *x.0).collect();
    if ks.is_empty() {
        None
    } else {
        Some(*r.pick(&ks))
    }
}

/// What an operation of the race does if there is nothing to work on.
fn substitute(o: &NOp) -> K {
    match mix(o.r) % 8 {
        0 | 1 => K::Send,
        2 => K::Bcast,
        3 => K::Join,
        4 => K::Dup,
        _ => K::Recv,
    }
}

impl S {
    fn put(&mut self, k: u32, o: Option<Obj>) {
        match o {
            None => {}
            Some(Obj::H(x)) => {
                self.hs.insert(k, x);
            }
            Some(Obj::Mb(x)) => {
                self.mbs.insert(k, x);
            }
            Some(Obj::R(x)) => {
                self.recvs.insert(k, x);
            }
            Some(Obj::Hand(x)) => {
                self.hands.insert(k, x);
            }
            Some(Obj::D(x)) => {
                self.disps.insert(k, x);
            }
            Some(Obj::O(x)) => {
                if x.done {
                    drop(x)
                } else {
                    self.ops.insert(k, x);
                }
            }
            Some(Obj::J(x)) => {
                self.joins.insert(k, x);
            }
        }
    }

    /// The operation with its objects: those it changes are taken out, those it only looks at are shared.
    ///
    /// In a race, an operation of which the release of an address or of a mailbox is a mere side effect,
    /// at the end of its work, comes with that mailbox (or an address) to hold, so that this is never the
    /// last reference.
    ///
    /// An operation of the race which finds nothing to work on is replaced by its substitute.
    fn resolve(&mut self, o: &NOp, race: bool) -> (A, u32, K, Hold) {
        match self.resolve_as(o, o.kind, race) {
            (A::Nothing, ..) if race => {
                let k = substitute(o);
                let (a, id, hold) = self.resolve_as(o, k, race);
                (a, id, k, hold)
            }
            (a, id, hold) => (a, id, o.kind, hold),
        }
    }

    fn resolve_as(&mut self, o: &NOp, kind: K, race: bool) -> (A, u32, Hold) {
        let r = &mut Rng::new(o.r);
        let mut hold: Hold = (None, None);
        if race {
            match kind {
                K::DropOp | K::PollOp => {
                    hold.0 = self.hs.values().find(|h| h.strong).cloned();
                    if hold.0.is_none() {
                        return (A::Nothing, 10 + o.id, hold);
                    }
                }
                _ => {}
            }
        }
        // Prefer strong addresses, since there are usually few.
        let shared_h = |s: &S, r: &mut Rng| pick(&s.hs, r, |_| true).map(|k| s.hs[&k].clone());
        let shared_m = |s: &S, r: &mut Rng| pick(&s.mbs, r, |_| true).map(|k| s.mbs[&k].clone());
        let m = o.id;
        let a = match kind {
            K::Send => shared_h(self, r).map(|h| A::Send(h, m, r.pct(50))),
            K::Bcast => shared_h(self, r).map(|h| A::Bcast(h, m)),
            K::Unpolled => shared_h(self, r).map(|h| A::Unpolled(h, m, r.pct(50))),
            K::PollOp => pick(&self.ops, r, |_| true).map(|k| A::PollOp(self.ops.remove(&k).unwrap())),
            K::DropOp => pick(&self.ops, r, |_| true).map(|k| A::DropOp(self.ops.remove(&k).unwrap())),
            K::Recv => shared_m(self, r).map(A::Recv),
            K::RecvUnpolled => shared_m(self, r).map(A::RecvUnpolled),
            K::RecvPoll => pick(&self.recvs, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.recvs.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::RecvPoll(v)
            }),
            K::RecvDrop => pick(&self.recvs, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.recvs.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::RecvDrop(v)
            }),
            K::Disp => pick(&self.hands, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.hands.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::Disp(v)
            }),
            K::DispPoll => pick(&self.disps, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.disps.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::DispPoll(v)
            }),
            K::DispDrop => pick(&self.disps, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.disps.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::DispDrop(v)
            }),
            K::MsgDrop => pick(&self.hands, r, |v| !race || v.mb.strong_count() > 0).map(|k| {
                let v = self.hands.remove(&k).unwrap();
                hold.1 = v.mb.upgrade();
                A::MsgDrop(v)
            }),
            K::RecvDisp => shared_m(self, r).map(A::RecvDisp),
            K::Dup => shared_h(self, r).map(A::Dup),
            K::Weak => shared_h(self, r).map(A::Weak),
            K::DropH if race && self.keep => {
                let k = pick(&self.hs, r, |h| Rc::strong_count(h) == 1 && h.strong);
                k.and_then(|k| {
                    hold.0 = self.hs.iter().find(|h| h.1.strong && *h.0 != k).map(|h| h.1.clone());
                    hold.0.as_ref()?;
                    Some(A::DropH(self.hs.remove(&k).unwrap()))
                })
            }
            K::DropH => pick(&self.hs, r, |h| Rc::strong_count(h) == 1 && h.strong)
                .map(|k| A::DropH(self.hs.remove(&k).unwrap())),
            K::Upgrade => pick(&self.hs, r, |h| !h.strong).map(|k| A::Upgrade(self.hs[&k].clone())),
            K::MbClone => shared_m(self, r).map(|x| A::MbClone(x, 10 + o.id)),
            K::MbDrop => {
                pick(&self.mbs, r, |h| Rc::strong_count(h) == 1).map(|k| A::MbDrop(self.mbs.remove(&k).unwrap()))
            }
            K::Join => shared_h(self, r).map(A::Join),
            K::JoinPoll => pick(&self.joins, r, |_| true).map(|k| A::JoinPoll(self.joins.remove(&k).unwrap())),
            K::JoinDrop => pick(&self.joins, r, |_| true).map(|k| A::JoinDrop(self.joins.remove(&k).unwrap())),
            K::Len => shared_h(self, r).map(A::Len),
            K::Conn => shared_h(self, r).map(A::Conn),
            K::OneH => {
                let ks: Vec<u32> = self.hs.iter().filter(|h| h.1.strong).map(|h| *h.0).skip(1).collect();
                for k in ks {
                    self.hs.remove(&k);
                }
                None
            }
            K::OneMb => {
                let ks: Vec<u32> = self.mbs.keys().copied().skip(1).collect();
                for k in ks {
                    self.mbs.remove(&k);
                }
                None
            }
            K::Gate => Some(A::Gate(r.below(GATES as u64) as u32)),
        };
        (a.unwrap_or(A::Nothing), 10 + o.id, hold)
    }
}

// ---------------------------------------------------------------- one execution

/// What was observed: (class, key, value).
type Sig = Vec<(&'static str, String, String)>;

fn class(k: K) -> &'static str {
    match k {
        K::Send | K::Bcast | K::Unpolled | K::PollOp | K::DropOp => "send",
        K::Recv | K::RecvUnpolled | K::RecvPoll | K::RecvDrop | K::RecvDisp => "receive",
        K::Disp | K::DispPoll | K::DispDrop | K::MsgDrop => "dispatch",
        K::Dup | K::Weak | K::DropH | K::Upgrade => "address",
        K::MbClone | K::MbDrop => "mailbox",
        K::Join | K::JoinPoll | K::JoinDrop | K::Conn => "connected",
        K::Len => "length",
        K::Gate | K::OneH | K::OneMb => "receive",
    }
}

/// The properties which a difference in this class speaks about.
fn tags(class: &str) -> &'static [&'static str] {
    match class {
        "send" => &["C03", "C04", "C08", "C09", "C11", "C17"],
        "receive" => &["C02", "C05", "C07", "C10", "C14", "C16"],
        "dispatch" => &["C01", "C02", "C12", "C14", "C16", "C19"],
        "address" => &["C15", "C16"],
        "mailbox" => &["C10", "C18"],
        "connected" => &["C15", "C17"],
        "length" => &["C08", "C11", "C23"],
        "lost send" => &["C04", "C09"],
        "lost receive" => &["C04", "C16"],
        "lost join" => &["C04", "C17"],
        "order" => &["C01", "C02", "C05", "C06", "C07", "C10", "C14"],
        "outcome" => &["C02", "C03", "C04", "C08", "C09", "C11"],
        "destroyed" => &["C02", "C18"],
        _ => &["C18"],
    }
}

fn started(mark: usize) -> String {
    with(|w| {
        w.log[mark..]
            .iter()
            .filter_map(|e| match e {
                Ev::HStart { m, .. } => Some(m.to_string()),
                _ => None,
            })
            .collect::<Vec<_>>()
            .join(",")
    })
}

/// Everything that can be seen of the state, destroying it.
fn epilogue(s: &mut S, obs: &H, sig: &mut Sig) {
    let mut gone: BTreeMap<u32, u32> = BTreeMap::new();
    with(|w| {
        for e in &w.log {
            if let Ev::PayDrop { m, .. } = e {
                *gone.entry(*m).or_default() += 1;
            }
        }
    });
    sig.push(("destroyed", "payloads destroyed by the end of the race".into(), format!("{:?}", gone)));
    sig.push(("length", "length after the race".into(), obs.len_raw().to_string()));
    sig.push(("connected", "connected after the race".into(), obs.is_connected_raw().to_string()));
    let poll_ops = |s: &mut S, sig: &mut Sig, when: &str| {
        let mut done = vec![];
        for (k, o) in s.ops.iter_mut() {
            let (woken, polled) = (op_woken(o), o.polled);
            let t = poll_op(o);
            if t != "pending" && t != "done" {
                if polled && !woken {
                    sig.push(("lost send", format!("send {} {}", k, when), "ready, but not woken".into()));
                }
                sig.push(("outcome", format!("send {} {}", k, when), t));
                if !o.done {
                    let t = poll_op(o);
                    if t != "pending" {
                        sig.push(("outcome", format!("result of send {} {}", k, when), t));
                    }
                }
            }
            if o.done {
                done.push(*k);
            }
        }
        for k in done {
            s.ops.remove(&k);
        }
        for (k, j) in s.joins.iter_mut() {
            if j.done {
                continue;
            }
            let (woken, polled) = (j.p.woken(), j.polled);
            j.polled = true;
            if poll_once(&mut j.p).is_some() {
                j.done = true;
                if polled && !woken {
                    sig.push(("lost join", format!("join handle {} {}", k, when), "ready, but not woken".into()));
                }
                sig.push(("connected", format!("join handle {}", k), format!("done {}", when)));
            }
        }
    };
    poll_ops(s, sig, "after the race");
    let rs: Vec<u32> = s.recvs.keys().copied().collect();
    for k in rs {
        let r = s.recvs.remove(&k).unwrap();
        let (woken, polled) = (r.p.woken(), r.polled);
        let (t, o) = recv_poll(r);
        if t != "pending" && polled && !woken {
            sig.push(("lost receive", format!("receive future {}", k), "ready, but not woken".into()));
        }
        sig.push(("receive", format!("receive future {} after the race", k), t));
        s.put(k, o);
        poll_ops(s, sig, &format!("after receive {}", k));
    }
    let hs: Vec<u32> = s.hands.keys().copied().collect();
    for k in hs {
        let h = s.hands.remove(&k).unwrap();
        let mark = with(|w| w.log.len());
        let (t, o) = dispatch(h);
        sig.push(("order", format!("message received as {}", k), format!("{} {}", started(mark), t)));
        s.put(k, o);
        poll_ops(s, sig, &format!("after handling {}", k));
    }
    for g in 0..GATES {
        open_gate(g);
    }
    let ds: Vec<u32> = s.disps.keys().copied().collect();
    for k in ds {
        let d = s.disps.remove(&k).unwrap();
        let (t, o) = disp_poll(d);
        sig.push(("dispatch", format!("dispatch {}", k), t));
        s.put(k, o);
    }
    poll_ops(s, sig, "after the dispatches");
    // Receive futures still waiting go away; the mailboxes are emptied in turns.
    s.recvs.clear();
    poll_ops(s, sig, "after dropping the receive futures");
    let mut ends: BTreeMap<u32, u32> = BTreeMap::new();
    let mut step = 0;
    loop {
        let mut any = false;
        let ks: Vec<u32> = s.mbs.keys().copied().collect();
        for k in ks {
            if ends.get(&k).copied().unwrap_or(0) >= 2 || step > 80 {
                continue;
            }
            let mb = s.mbs[&k].clone();
            let (_, o) = recv_poll(recv(&mb));
            let Some(Obj::Hand(h)) = o else { continue };
            any = true;
            let mark = with(|w| w.log.len());
            let (t, o) = dispatch(h);
            let m = started(mark);
            if m.is_empty() {
                *ends.entry(k).or_default() += 1;
            }
            sig.push(("order", format!("mailbox {} takes as number {}", k, step), format!("message {} {}", m, t)));
            drop(o);
            step += 1;
            poll_ops(s, sig, &format!("after step {}", step));
        }
        if !any {
            break;
        }
    }
    s.hs.clear();
    sig.push(("connected", "connected without addresses".into(), obs.is_connected_raw().to_string()));
    poll_ops(s, sig, "without addresses");
    s.mbs.clear();
    s.hands.clear();
    s.disps.clear();
    poll_ops(s, sig, "without mailboxes");
    s.ops.clear();
    s.joins.clear();
    sig.push(("length", "length in the end".into(), obs.len_raw().to_string()));
    sig.push(("rest", "wakers left".into(), with(|w| w.live_wakers).to_string()));
    let mut gone: BTreeMap<u32, u32> = BTreeMap::new();
    with(|w| {
        for e in &w.log {
            if let Ev::PayDrop { m, .. } = e {
                *gone.entry(*m).or_default() += 1;
            }
        }
    });
    sig.push(("rest", "payloads destroyed in the end".into(), format!("{:?}", gone)));
}

struct One {
    sig: Sig,
    out: RunOut,
    /// Scheduling points passed when the race began and ended.
    span: (u64, u64),
}

/// `order`: the threads' turns, or everything at once.
fn one(p: &NProg, order: Option<&[usize]>, strategy: sim::Strategy, seed: u64, run_no: u64, replay: Option<Vec<(u32, u32)>>) -> One {
    BOOK.with(|b| {
        *b.borrow_mut() = Rc::new(Book {
            msgs: p.msgs.clone(),
            actors: vec![],
        })
    });
    let res: Rc<RefCell<(Sig, (u64, u64))>> = Rc::default();
    let res2 = res.clone();
    let p2 = p.clone();
    let order: Option<Vec<usize>> = order.map(|o| o.to_vec());
    let rep = exec::run_with(
        seed,
        run_no,
        strategy,
        p.cap,
        0,
        replay,
        Box::new(move || {
            let p = p2;
            let (a, mb) = match p.cap {
                Some(c) => Mailbox::<Act>::bounded(c),
                None => Mailbox::<Act>::unbounded(),
            };
            let mut s = S::default();
            let a = H::adopt(Any::S(a), true);
            let obs = a.downgrade();
            s.hs.insert(1, Rc::new(a));
            let id = new_mb_id();
            s.mbs.insert(
                2,
                Rc::new(Mb {
                    id,
                    inner: Some(mb),
                }),
            );
            for o in &p.pre {
                log(Ev::LOp { id: o.id });
                let (a, k, _, _) = s.resolve(o, false);
                let (_, o) = perform(a);
                s.put(k, o);
            }
            log(Ev::Phase { n: 1 });
            // Dropping the last strong address takes two steps: it closes the mailbox and wakes those who wait.
            // A third operation can come in between, and do as if the former were done and the latter not, if
            // there still is a message to hand out.
            s.keep = p.race.len() > 2
                && (s.ops.values().any(|o| o.polled)
                    || p.race.iter().flatten().any(|o| {
                        matches!(
                            o.kind,
                            K::RecvDrop | K::PollOp | K::DropOp | K::MsgDrop | K::Disp | K::DispPoll | K::DispDrop
                        )
                    }));
            let mut holds: Vec<Hold> = vec![];
            let mut todo: Vec<std::collections::VecDeque<(u32, u32, K, A)>> = vec![];
            for f in &p.race {
                todo.push(
                    f.iter()
                        .map(|o| {
                            let (a, k, kind, hold) = s.resolve(o, true);
                            holds.push(hold);
                            (k, o.id, kind, a)
                        })
                        .collect(),
                );
            }
            let done: Rc<RefCell<Vec<(u32, K, String, Option<Obj>)>>> = Rc::default();
            let t0 = sim::steps();
            let step = |done: &Rc<RefCell<Vec<(u32, K, String, Option<Obj>)>>>, (k, id, kind, a): (u32, u32, K, A)| {
                log(Ev::LOp { id });
                let r = sim::catch(|| perform(a));
                let (t, o) = match r {
                    Ok(x) => x,
                    Err(e) => (format!("panic: {}", e), None),
                };
                done.borrow_mut().push((k, kind, t, o));
            };
            match order {
                Some(o) => {
                    let mut past: Vec<Vec<u32>> = todo.iter().map(|_| vec![]).collect();
                    for f in o {
                        if f >= FIRST {
                            if let Some(mut x) = todo[f % PLACE].pop_front() {
                                if let A::RecvPoll(r) = &mut x.3 {
                                    if r.p.woken() {
                                        *r = recv(&r.mb.upgrade().unwrap());
                                    }
                                }
                                past[f % PLACE].push(x.0);
                                step(&done, x);
                            }
                        } else if f >= AGAIN {
                            let fresh = f >= FRESH;
                            let Some(&k) = past[f % PLACE].get(f % AGAIN / PLACE) else { continue };
                            let mut d = done.borrow_mut();
                            let x = d.iter_mut().find(|x| x.0 == k).unwrap();
                            if x.2 == "pending" {
                                let (kind, o) = (x.1, x.3.take().unwrap());
                                drop(d);
                                let (t, o) = again(kind, o, fresh);
                                let mut d = done.borrow_mut();
                                let x = d.iter_mut().find(|x| x.0 == k).unwrap();
                                if let Some(t) = t {
                                    x.2 = t;
                                }
                                x.3 = o;
                            }
                        } else if let Some(x) = todo[f].pop_front() {
                            past[f].push(x.0);
                            step(&done, x);
                        }
                    }
                }
                None => {
                    sim::marks_from_here();
                    for (i, q) in todo.into_iter().enumerate() {
                        let done = done.clone();
                        sim::spawn(
                            format!("racer {}", i),
                            Box::new(move || {
                                for x in q {
                                    step(&done, x);
                                }
                            }),
                        );
                    }
                    sim::settle();
                }
            }
            drop(holds);
            let t1 = sim::steps();
            log(Ev::Phase { n: 2 });
            let mut sig: Sig = vec![];
            let mut all = std::mem::take(&mut *done.borrow_mut());
            all.sort_by_key(|x| x.0);
            for (k, kind, t, o) in all {
                sig.push((class(kind), format!("operation {} ({:?})", k - 10, kind), t));
                s.put(k, o);
            }
            epilogue(&mut s, &obs, &mut sig);
            drop(s);
            drop(obs);
            log(Ev::Phase { n: 6 });
            *res2.borrow_mut() = (sig, (t0, t1));
        }),
    );
    let out = exec::finish(rep);
    let (sig, span) = std::mem::take(&mut *res.borrow_mut());
    One { sig, out, span }
}

/// Turn in which a thread polls again what its last operation left pending.
const AGAIN: usize = 100;
/// The same, with a new receive future in place of the old one.
const FRESH: usize = 200;
/// Turn in which a thread performs its next operation with a new receive future in place of the old.
const FIRST: usize = 300;
/// Added to a turn for which of the thread's operations it is.
const PLACE: usize = 10;

/// Steps which operations are taken to have.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Split {
    No,
    /// A poll which has to wait takes two steps: it queues up, and looks whether its turn has come already.
    /// The second one is a turn of its own.
    Poll,
    /// Besides, the thread may be further on when the second look is taken. Whoever completes a pending
    /// operation marks it, and then, the mailbox still locked, hands its message on. Polls of pending receives
    /// need no lock, so they can come in between.
    Late,
}

/// All orders of the threads' turns.
fn orders(p: &NProg, split: Split) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<Vec<usize>>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| x.is_empty()) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if !left[i].is_empty() {
                let x = left[i].remove(0);
                cur.push(x);
                go(left, cur, out);
                cur.pop();
                left[i].insert(0, x);
            }
        }
    }
    let mut out = vec![];
    // A receive which was woken for nothing starts afresh.
    let fresh: Vec<u32> = p
        .race
        .iter()
        .flatten()
        .filter(|o| [o.kind, substitute(o)].iter().any(|k| matches!(k, K::Recv | K::RecvPoll)))
        .map(|o| o.id)
        .collect();
    for mask in 0..if split != Split::No { 3usize.pow(fresh.len() as u32) } else { 1 } {
        let mut turns: Vec<Vec<usize>> = p
            .race
            .iter()
            .enumerate()
            .map(|(i, f)| {
                f.iter()
                    .enumerate()
                    .flat_map(|(n, o)| {
                        let two = [o.kind, substitute(o)].iter().any(|k| {
                            matches!(
                                k,
                                K::Send | K::Bcast | K::PollOp | K::Recv | K::RecvPoll | K::Join | K::JoinPoll
                            )
                        });
                        let mut v = vec![i];
                        if let Some(k) = fresh.iter().position(|x| *x == o.id) {
                            match mask / 3usize.pow(k as u32) % 3 {
                                1 => v.push(FRESH + PLACE * n + i),
                                2 => v[0] = FIRST + i,
                                _ => {}
                            }
                        }
                        if two && split != Split::No {
                            v.push(AGAIN + PLACE * n + i);
                        }
                        v
                    })
                    .collect()
            })
            .collect();
        if split != Split::Late {
            go(&mut turns, &mut vec![], &mut out);
            continue;
        }
        // Second looks move behind later polls of receives.
        let polls = |i: usize, t: usize| {
            let n = t % AGAIN / PLACE;
            t % PLACE == i
                && t >= AGAIN
                && [p.race[i][n].kind, substitute(&p.race[i][n])].contains(&K::RecvPoll)
        };
        let mut all: Vec<Vec<Vec<usize>>> = vec![];
        for (i, t) in turns.iter().enumerate() {
            let mut v: Vec<Vec<usize>> = vec![t.clone()];
            let mut k = 0;
            while k < v.len() && v.len() < 12 {
                let t = v[k].clone();
                k += 1;
                for j in 0..t.len().saturating_sub(1) {
                    let next = t[j + 1];
                    let free = if next >= AGAIN && next < FIRST {
                        polls(i, next)
                    } else {
                        // Which of the thread's operations this turn is.
                        let n = t[..=j].iter().filter(|x| **x < AGAIN || **x >= FIRST).count();
                        [p.race[i][n].kind, substitute(&p.race[i][n])].contains(&K::RecvPoll)
                    };
                    let same = next >= AGAIN && next < FIRST && next % AGAIN == t[j] % AGAIN;
                    if t[j] >= AGAIN && t[j] < FRESH && free && !same {
                        let mut u = t.clone();
                        u.swap(j, j + 1);
                        if !v.contains(&u) {
                            v.push(u);
                        }
                    }
                }
            }
            all.push(v);
        }
        let mut pick = vec![0; all.len()];
        loop {
            if pick.iter().any(|x| *x > 0) {
                let mut turns: Vec<Vec<usize>> = pick.iter().zip(&all).map(|(k, v)| v[*k].clone()).collect();
                go(&mut turns, &mut vec![], &mut out);
            }
            let Some(i) = (0..pick.len()).find(|i| pick[*i] + 1 < all[*i].len()) else { break };
            pick[i] += 1;
            pick[..i].iter_mut().for_each(|x| *x = 0);
        }
    }
    out
}

fn diff(a: &Sig, b: &Sig) -> Vec<(&'static str, String, String, String)> {
    let m = |s: &Sig| -> BTreeMap<(String, &'static str), String> {
        s.iter().map(|(c, k, v)| ((k.clone(), *c), v.clone())).collect()
    };
    let (x, y) = (m(a), m(b));
    let keys: BTreeSet<_> = x.keys().chain(y.keys()).cloned().collect();
    let none = "nothing".to_string();
    keys.into_iter()
        .filter(|k| x.get(k) != y.get(k))
        .map(|k| {
            let (v, w) = (x.get(&k).unwrap_or(&none).clone(), y.get(&k).unwrap_or(&none).clone());
            (k.1, k.0, v, w)
        })
        .collect()
}

pub fn run(p: &NProg, sched: u64, run_no: u64, choices: Option<Vec<(u32, u32)>>) -> (RunOut, Vec<Violation>) {
    let mut allowed: Vec<Sig> = vec![];
    let mut len = 0;
    let mut counts = [0u64; 4];
    for o in orders(p, Split::No) {
        let x = one(p, Some(&o), sim::Strategy::RunToBlock, 1, run_no, None);
        counts[0] += 1;
        if let Some((c, m)) = &x.out.rep.failure {
            let v = from_failure(c, m);
            return (x.out, vec![v]);
        }
        len = len.max(x.span.1 - x.span.0);
        // One at a time, nothing may be lost.
        if let Some(l) = x.sig.iter().find(|e| e.0.starts_with("lost")) {
            let v = violation(&[l.0], format!("one at a time: {} is {}", l.1, l.2));
            return (x.out, vec![v]);
        }
        if !allowed.contains(&x.sig) {
            allowed.push(x.sig);
        }
    }
    counts[2] = (allowed.len() > 1) as u64;
    let n = if choices.is_some() { 1 } else { TRIES };
    let mut split = Split::No;
    let mut sum: Option<RunOut> = None;
    for t in 0..n {
        let mut r = Rng::new(mix(sched ^ t.wrapping_mul(0x9E37)));
        let h = len.max(4) as u32;
        let strategy = match r.below(4) {
            0 => sim::Strategy::Walk {
                num: *r.pick(&[60, 200, 400]),
            },
            1 => sim::Strategy::Pct {
                k: 1 + r.below(3) as u32,
                horizon: h,
            },
            _ => sim::Strategy::Few {
                k: 1 + r.below(3) as u32,
                horizon: h,
            },
        };
        let x = one(p, None, strategy, r.u64(), run_no, choices.clone());
        counts[1] += 1;
        let mut bad = vec![];
        while x.out.rep.failure.is_none() && !allowed.contains(&x.sig) && split != Split::Late {
            split = if split == Split::No { Split::Poll } else { Split::Late };
            counts[3] = 1;
            for o in orders(p, split) {
                let x = one(p, Some(&o), sim::Strategy::RunToBlock, 1, run_no, None);
                counts[0] += 1;
                if x.out.rep.failure.is_none() && !allowed.contains(&x.sig) {
                    allowed.push(x.sig);
                }
            }
        }
        if let Some((c, m)) = &x.out.rep.failure {
            bad.push(from_failure(c, m));
        } else if !allowed.contains(&x.sig) {
            let best = allowed.iter().map(|a| diff(&x.sig, a)).min_by_key(|d| d.len()).unwrap();
            let msg = best
                .iter()
                .take(4)
                .map(|(_, k, v, w)| format!("{}: {} instead of {}", k, v, w))
                .collect::<Vec<_>>()
                .join("; ");
            let cl: Vec<&str> = best.iter().map(|d| d.0).collect();
            let mut v = violation(
                &cl,
                format!("no order of the concurrent operations explains what is observed; closest: {}", msg),
            );
            // What does the stopping is in the race.
            let runs = p.race.iter().flatten().any(|o| matches!(o.kind, K::Disp | K::DispPoll));
            for (act, prop) in [(HAct::StopSelf, "C13"), (HAct::StopAll, "C14")] {
                let has = p.msgs.iter().any(|m| m.script.contains(&act));
                if runs && has && !v.props.iter().any(|p| p == prop) {
                    v.props.push(prop.into());
                }
            }
            bad.push(v);
        }
        if !bad.is_empty() {
            return (x.out, bad);
        }
        sum = Some(match sum {
            None => x.out,
            Some(mut s) => {
                s.rep.steps += x.out.rep.steps;
                s.rep.switches += x.out.rep.switches;
                s.rep.preemptions += x.out.rep.preemptions;
                s.rep.n_choices += x.out.rep.n_choices;
                s.rep.fibers += x.out.rep.fibers;
                s.rep.sched_hash = mix(s.rep.sched_hash ^ x.out.rep.sched_hash);
                s.log_hash = mix(s.log_hash ^ x.out.log_hash);
                s
            }
        });
    }
    let mut sum = sum.unwrap();
    sum.stats.lin = counts;
    (sum, vec![])
}

fn violation(classes: &[&str], msg: String) -> Violation {
    let mut props: Vec<String> = vec!["C28".into()];
    for c in classes {
        for t in tags(c) {
            if !props.iter().any(|p| p == t) {
                props.push(t.to_string());
            }
        }
    }
    Violation {
        props,
        rule: "linear",
        msg,
    }
}

pub fn describe(p: &NProg) -> String {
    let mut s = format!("race program: capacity {:?}\n", p.cap);
    for o in &p.pre {
        s += &format!("  operation {}: {:?}\n", o.id, o.kind);
    }
    for (i, f) in p.race.iter().enumerate() {
        for o in f {
            s += &format!("  thread {}: operation {}: {:?}\n", i, o.id, o.kind);
        }
    }
    for (m, x) in p.msgs.iter().enumerate() {
        s += &format!("  message {}: {:?}\n", m, x);
    }
    s
}
