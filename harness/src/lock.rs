//! Lock-step refinement: one operation at a time on the real code and on a small reference model,
//! compared after each.
//!
//! Nothing runs between operations, so the model's state is exact: every answer, wake-up, admission,
//! choice of the next message, length and destruction is checked. Where the properties leave a
//! choice (which waiting receiver gets a message, order among equal non-default priorities, unicast
//! or broadcast first at equal priority), the model follows the real code within the allowed set.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};

use futures_sink::Sink;
use futures_util::future::poll_fn;
use futures_util::FutureExt;
use spin::sim;
use xtra::prelude::*;
use xtra::Receiver;

use crate::act::*;
use crate::check::Violation;
use crate::exec::{self, RunOut};
use crate::ident::{self, Id};
use crate::rng::Rng;
use crate::world::*;

const GATES: u32 = 6;
const STOP: u64 = 1 << 40;

/// One abstract operation: everything else is derived from its own random number.
#[derive(Clone, Debug)]
pub struct LOp {
    pub id: u32,
    pub kind: LKind,
    pub r: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LKind {
    Send,
    Bcast,
    PollOp,
    DropOp,
    RecvNew,
    RecvPoll,
    RecvDrop,
    /// Create, poll, and dispatch what comes out.
    RecvDispatch,
    Dispatch,
    DispPoll,
    DispDrop,
    MsgDrop,
    OpenGate,
    Dup,
    Convert,
    Upgrade,
    DropHandle,
    MbClone,
    MbDrop,
    Join,
    JoinPoll,
    SinkNew,
    SinkSend,
    SinkPoll,
    Compare,
    RepollAll,
}

const KINDS: &[(LKind, u32)] = &[
    (LKind::Send, 16),
    (LKind::Bcast, 10),
    (LKind::PollOp, 8),
    (LKind::DropOp, 4),
    (LKind::RecvNew, 5),
    (LKind::RecvPoll, 10),
    (LKind::RecvDrop, 4),
    (LKind::RecvDispatch, 12),
    (LKind::Dispatch, 6),
    (LKind::DispPoll, 4),
    (LKind::DispDrop, 2),
    (LKind::MsgDrop, 1),
    (LKind::OpenGate, 2),
    (LKind::Dup, 2),
    (LKind::Convert, 3),
    (LKind::Upgrade, 1),
    (LKind::DropHandle, 4),
    (LKind::MbClone, 2),
    (LKind::MbDrop, 2),
    (LKind::Join, 1),
    (LKind::JoinPoll, 1),
    (LKind::SinkNew, 1),
    (LKind::SinkSend, 2),
    (LKind::SinkPoll, 2),
    (LKind::Compare, 2),
    (LKind::RepollAll, 2),
];

/// A lock-step program.
#[derive(Clone, Debug)]
pub struct LProg {
    pub cap: Option<usize>,
    pub ops: Vec<LOp>,
    pub msgs: Vec<MsgSpec>,
    /// How freely things are dropped at the end.
    pub tail: u64,
    pub reckless: u32,
    /// How many addresses and mailboxes there may be.
    pub crowd: (usize, usize),
    /// So many messages were handled before it all begins.
    pub warm: u32,
    /// Addresses and mailboxes made before anything else.
    pub ballast: (u32, u32),
}

/// Messages `0..n` are sent by operation `id`; messages `n..` by handlers.
pub fn generate(prop: &str, seed: u64) -> LProg {
    let mut r = Rng::new(seed ^ 0x10C5);
    let caps = [None, Some(0), Some(1), Some(1), Some(2), Some(2), Some(3), Some(5)];
    let cap = if matches!(prop, "C08" | "C09" | "C11") && r.pct(80) {
        *r.pick(&caps[1..])
    } else {
        *r.pick(&caps)
    };
    // Now and then a long history, for queues, sequence numbers and counters of some size.
    let soak = r.below(70) == 0;
    let cap = if soak {
        *r.pick(&[None, None, Some(1), Some(4), Some(70), Some(300)])
    } else if r.below(60) == 0 {
        // Bounded, but never full.
        *r.pick(&[Some(usize::MAX), Some(usize::MAX - 1), Some(1 << 32), Some(1 << 63)])
    } else {
        cap
    };
    let n = match r.below(4) {
        _ if soak => r.range(400, 900),
        0 => r.range(4, 15),
        1 => r.range(10, 40),
        2 => r.range(20, 80),
        _ => r.range(40, 160),
    } as usize;
    // Weights vary from run to run, so that deep states of different kinds are reached.
    let mut ws: Vec<u32> = KINDS
        .iter()
        .map(|(_, w)| match r.below(6) {
            0 => w * 5,
            1 => w * 20,
            2 => w * 2,
            _ => w * 10,
        })
        .collect();
    let boost: &[LKind] = match prop {
        "C25" => &[LKind::Compare, LKind::Convert, LKind::Upgrade, LKind::DropHandle],
        "C22" => &[LKind::SinkNew, LKind::SinkSend, LKind::SinkPoll, LKind::Convert, LKind::Compare],
        "C05" => &[LKind::RecvNew, LKind::RecvPoll, LKind::RecvDrop],
        "C09" => &[LKind::Send, LKind::Bcast, LKind::DropOp],
        "C10" | "C11" => &[LKind::Bcast, LKind::MbClone, LKind::MbDrop],
        "C15" => &[LKind::Upgrade, LKind::DropHandle, LKind::Convert],
        "C17" | "C18" => &[LKind::Join, LKind::JoinPoll, LKind::MbDrop, LKind::MsgDrop],
        _ => &[],
    };
    for (k, (kind, _)) in KINDS.iter().enumerate() {
        if boost.contains(kind) {
            ws[k] *= if prop == "C25" && *kind == LKind::Compare { 12 } else { 3 };
        }
    }
    // Phases: fill the queues, then empty them, and so on; or a crowd of waiting receivers, of
    // mailboxes, or of addresses and joins.
    let phase = r.range(150, 450) as usize;
    let bc = r.pct(40);
    let flavour = if soak { r.below(6) } else { 0 };
    let crowd = match flavour {
        3 => (12, 6),
        4 => (12, 70),
        5 => (90, 5),
        _ => (12, 5),
    };
    let ops: Vec<LOp> = (0..n)
        .map(|i| {
            if soak {
                let fill = (i / phase) % 2 == 0;
                for (k, (kind, w)) in KINDS.iter().enumerate() {
                    ws[k] = match kind {
                        LKind::DropHandle | LKind::MbDrop if flavour < 4 => 0,
                        LKind::DropHandle if flavour == 4 => 0,
                        LKind::RecvNew if flavour == 3 && fill => 400,
                        LKind::RecvDispatch | LKind::RecvPoll | LKind::RecvDrop if flavour == 3 && fill => 10,
                        LKind::Send if flavour == 3 => 4 + 200 * !fill as u32,
                        LKind::Bcast if flavour == 3 => 1 + 8 * !fill as u32,
                        LKind::MbClone if flavour == 4 => 60 + 200 * fill as u32,
                        LKind::Join if flavour == 5 => 60 + 200 * fill as u32,
                        LKind::Dup if flavour == 5 => 60 + 300 * fill as u32,
                        LKind::JoinPoll | LKind::MbDrop | LKind::DropHandle if flavour > 3 => 20 + 60 * !fill as u32,
                        LKind::Send => 400 * fill as u32 + 20,
                        LKind::Bcast => 200 * (fill && bc) as u32 + 5,
                        LKind::RecvDispatch => 500 * !fill as u32 + 10,
                        _ => *w,
                    };
                }
            }
            LOp {
                id: i as u32,
                kind: KINDS[r.weighted(&ws)].0,
                r: r.u64(),
            }
        })
        .collect();
    let prio_mode = r.below(4);
    let gate_pct = *r.pick(&[5, 15, 40]);
    let fault_pct = if soak { 0 } else { *r.pick(&[0, 4, 12]) };
    let mut msgs = vec![];
    for i in 0..2 * n {
        let bc = i < n && ops[i].kind == LKind::Bcast || i >= n && i % 2 == 1;
        let prio = match prio_mode {
            0 => None,
            1 => *r.pick(&[None, None, Some(0), Some(1)]),
            2 => *r.pick(&[None, Some(1), Some(2), Some(3), Some(u32::MAX)]),
            _ => match r.below(4) {
                0 => None,
                1 => Some(r.below(3) as u32),
                2 => Some(u32::MAX - r.below(2) as u32),
                _ => Some(r.u64() as u32),
            },
        };
        let mut script = vec![];
        if r.pct(gate_pct) {
            script.push(HAct::Gate(r.below(GATES as u64) as u32));
        }
        if r.pct(fault_pct) {
            script.push(match r.below(4) {
                0 => HAct::StopSelf,
                1 => HAct::StopAll,
                2 => HAct::Panic,
                _ => HAct::Hold,
            });
            if r.pct(40) {
                script.push(HAct::Gate(r.below(GATES as u64) as u32));
            }
        }
        if i < n && !bc && r.pct(8) {
            let m2 = n as u32 + i as u32;
            script.push(if m2 >= n as u32 && m2 % 2 == 1 {
                HAct::SelfBcast(m2)
            } else {
                HAct::SelfSend(m2)
            });
        }
        let extra = if bc {
            ExtraSpec::None
        } else {
            match r.below(12) {
                0 => ExtraSpec::Strong(*r.pick(&[DropAct::None, DropAct::Len, DropAct::Connected])),
                1 => ExtraSpec::Weak(*r.pick(&[DropAct::Len, DropAct::Connected, DropAct::Upgrade])),
                _ => ExtraSpec::None,
            }
        };
        let kind = if bc {
            Kind::Bc
        } else if i < n && ops[i].kind == LKind::SinkSend {
            Kind::Unit
        } else {
            Kind::Uni
        };
        msgs.push(MsgSpec {
            kind,
            prio: if kind == Kind::Unit { None } else { prio },
            script,
            extra: if kind == Kind::Unit { ExtraSpec::None } else { extra },
        });
    }
    LProg {
        cap,
        ops,
        msgs,
        tail: r.u64(),
        reckless: *r.pick(&[0, 5, 5, 40]) * (flavour < 3) as u32,
        crowd,
        warm: match r.below(2000) {
            // Just before some counter may turn over.
            0 => 65_536 - r.below(150) as u32,
            1..=20 => *r.pick(&[128, 256, 512, 1024, 4096]) - r.below(100) as u32,
            _ => 0,
        },
        ballast: match r.below(400) + 3 * soak as u64 {
            0 => (*r.pick(&[64, 128, 256]) + r.below(3) as u32, 0),
            1 => (0, *r.pick(&[64, 128, 256]) + r.below(3) as u32),
            2 => (256 + r.below(2) as u32, 256 + r.below(2) as u32),
            _ => (0, 0),
        },
    }
}

pub fn units(p: &LProg) -> Vec<u32> {
    let mut v: Vec<u32> = p.ops.iter().map(|o| o.id).collect();
    for (m, s) in p.msgs.iter().enumerate() {
        if !s.script.is_empty() {
            v.push(100_000 + m as u32);
        }
        if s.extra != ExtraSpec::None {
            v.push(200_000 + m as u32);
        }
    }
    v
}

pub fn without(p: &LProg, drop: &[u32]) -> LProg {
    let mut q = p.clone();
    q.ops.retain(|o| !drop.contains(&o.id));
    for (m, s) in q.msgs.iter_mut().enumerate() {
        if drop.contains(&(100_000 + m as u32)) {
            s.script.clear();
        }
        if drop.contains(&(200_000 + m as u32)) {
            s.extra = ExtraSpec::None;
        }
    }
    q
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Item {
    Uni(MsgId),
    Bc(MsgId),
    /// A stop-all request.
    Stop,
    /// No strong address is left.
    Shutdown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum RSt {
    New,
    Waiting,
    Assigned(MsgId),
    WokenBc,
    WokenShut,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum OSt {
    New,
    Waiting,
    /// Accepted; a detached send or broadcast is ready.
    Accepted,
    /// Failed: disconnected.
    Closed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Res {
    Open,
    Val(u64),
    Interrupted,
}

#[derive(Default)]
struct Group {
    refs: u32,
    bq: Vec<(u64, Item)>,
}

struct MOp {
    bc: bool,
    prio: u64,
    st: OSt,
}

struct Model {
    cap: Option<usize>,
    strong: i64,
    uni: Vec<(u64, MsgId, bool)>,
    wait_uni: VecDeque<(u64, MsgId)>,
    wait_bc: VecDeque<(u64, MsgId)>,
    groups: BTreeMap<u32, Group>,
    /// Waiting receive futures, the one waiting longest first.
    waiting: Vec<u32>,
    rst: BTreeMap<u32, RSt>,
    ops: BTreeMap<MsgId, MOp>,
    res: BTreeMap<MsgId, Res>,
    /// Messages whose (original) payload must exist.
    live: BTreeSet<MsgId>,
    /// Broadcasts received and not dispatched yet.
    hand_bc: Vec<MsgId>,
    specs: Rc<Vec<MsgSpec>>,
    /// Messages carrying a strong address.
    heavy: BTreeSet<MsgId>,
}

impl Model {
    fn rx(&self) -> bool {
        !self.groups.is_empty()
    }
    fn connected(&self) -> bool {
        self.strong > 0 && self.rx()
    }
    fn tail(&self) -> usize {
        self.groups.values().map(|g| g.bq.len()).max().unwrap_or(0)
    }
    fn uni_full(&self) -> bool {
        self.cap.map_or(false, |c| self.uni.len() >= c)
    }
    fn bc_full(&self) -> bool {
        self.cap.map_or(false, |c| self.tail() >= c.max(1))
    }
    fn next_waiting(q: &mut VecDeque<(u64, MsgId)>) -> Option<(u64, MsgId)> {
        let best = q.iter().map(|x| x.0).max()?;
        let k = q.iter().position(|x| x.0 == best).unwrap();
        q.remove(k)
    }
    fn admit(&mut self) {
        while !self.uni_full() {
            let Some((p, m)) = Self::next_waiting(&mut self.wait_uni) else { break };
            self.accepted(m);
            self.uni.push((p, m, false));
        }
        while !self.bc_full() && self.rx() {
            let Some((p, m)) = Self::next_waiting(&mut self.wait_bc) else { break };
            self.accepted(m);
            self.push_bc(p, Item::Bc(m));
        }
    }
    fn accepted(&mut self, m: MsgId) {
        if let Some(o) = self.ops.get_mut(&m) {
            o.st = OSt::Accepted;
        }
    }
    fn push_bc(&mut self, p: u64, it: Item) {
        for g in self.groups.values_mut() {
            g.bq.push((p, it));
        }
        for r in std::mem::take(&mut self.waiting) {
            self.rst.insert(r, RSt::WokenBc);
        }
        self.gc_bc();
    }
    /// A broadcast's payload lives while someone has yet to take it.
    fn gc_bc(&mut self) {
        let dead: Vec<MsgId> = self
            .live
            .iter()
            .copied()
            .filter(|m| {
                self.specs[*m as usize].kind == Kind::Bc
                    && !self.hand_bc.contains(m)
                    && !self.groups.values().any(|g| g.bq.iter().any(|x| x.1 == Item::Bc(*m)))
                    && !self.ops.get(m).map_or(false, |o| matches!(o.st, OSt::New | OSt::Waiting))
            })
            .collect();
        for m in dead {
            self.live.remove(&m);
        }
    }
    fn strong_dec(&mut self) {
        self.strong -= 1;
        if self.strong == 0 {
            for r in std::mem::take(&mut self.waiting) {
                self.rst.insert(r, RSt::WokenShut);
            }
        }
    }
    /// The payload of a unicast message is destroyed.
    fn kill(&mut self, m: MsgId) {
        if self.live.remove(&m) && self.heavy.remove(&m) {
            self.strong_dec();
        }
    }
    fn interrupt(&mut self, m: MsgId) {
        if self.res.get(&m) == Some(&Res::Open) {
            self.res.insert(m, Res::Interrupted);
        }
        self.kill(m);
    }
    /// An object belonging to a mailbox is gone.
    fn unref(&mut self, g: u32) {
        let x = self.groups.get_mut(&g).unwrap();
        x.refs -= 1;
        if x.refs > 0 {
            return;
        }
        self.groups.remove(&g);
        if self.groups.is_empty() {
            for (_, m, _) in std::mem::take(&mut self.uni) {
                self.interrupt(m);
            }
            for (_, m) in std::mem::take(&mut self.wait_uni) {
                self.ops.get_mut(&m).unwrap().st = OSt::Closed;
                self.kill(m);
            }
            for (_, m) in std::mem::take(&mut self.wait_bc) {
                self.ops.get_mut(&m).unwrap().st = OSt::Closed;
            }
        } else {
            self.admit();
        }
        self.gc_bc();
    }
    fn top_uni(&self) -> Option<u64> {
        self.uni.iter().map(|x| x.0).max()
    }
    fn top_bc(&self, g: u32) -> Option<u64> {
        self.groups[&g].bq.iter().map(|x| x.0).max()
    }
    fn heads_bc(&self, g: u32) -> Vec<Item> {
        let Some(t) = self.top_bc(g) else { return vec![] };
        self.groups[&g].bq.iter().filter(|x| x.0 == t).map(|x| x.1).collect()
    }
    fn heads_uni(&self) -> Vec<Item> {
        let Some(t) = self.top_uni() else { return vec![] };
        let mut v: Vec<Item> = vec![];
        let mut first = true;
        for x in self.uni.iter().filter(|x| x.0 == t) {
            if t != 0 || x.2 {
                v.push(Item::Uni(x.1));
            } else if first {
                v.push(Item::Uni(x.1));
                first = false;
            }
        }
        v
    }
    /// What a fresh receive may yield; nothing: it waits.
    fn cands(&self, g: u32) -> Vec<Item> {
        let (u, b) = (self.top_uni(), self.top_bc(g));
        if u.is_none() && b.is_none() {
            let mut q = self.wait_uni.clone();
            if let Some((_, m)) = Self::next_waiting(&mut q) {
                return vec![Item::Uni(m)];
            }
            if self.strong == 0 {
                return vec![Item::Shutdown];
            }
            return vec![];
        }
        let mut v = vec![];
        if u >= b {
            v.extend(self.heads_uni());
        }
        if b >= u {
            v.extend(self.heads_bc(g));
        }
        v
    }
    /// What polling a receive future may yield; nothing: pending.
    fn poll_cands(&self, id: u32, g: u32) -> Vec<Item> {
        match self.rst[&id] {
            RSt::New => self.cands(g),
            RSt::Waiting => vec![],
            RSt::Assigned(m) => vec![Item::Uni(m)],
            RSt::WokenBc => {
                let mut v = self.heads_bc(g);
                for x in self.cands(g) {
                    if !v.contains(&x) {
                        v.push(x)
                    }
                }
                v
            }
            RSt::WokenShut => {
                let mut v = vec![Item::Shutdown];
                for x in self.cands(g) {
                    if !v.contains(&x) {
                        v.push(x)
                    }
                }
                v
            }
        }
    }
    fn take(&mut self, g: u32, it: Item) {
        match it {
            Item::Uni(m) => {
                self.uni.retain(|x| x.1 != m);
                if self.wait_uni.iter().any(|x| x.1 == m) {
                    self.wait_uni.retain(|x| x.1 != m);
                    self.accepted(m);
                }
            }
            Item::Bc(_) | Item::Stop => {
                let bq = &mut self.groups.get_mut(&g).unwrap().bq;
                let k = bq.iter().position(|x| x.1 == it).unwrap();
                bq.remove(k);
                if let Item::Bc(m) = it {
                    self.hand_bc.push(m);
                }
            }
            Item::Shutdown => {}
        }
        self.admit();
        self.gc_bc();
    }
}

// ---------------------------------------------------------------- driver

enum P {
    S(Probe<SendFut>),
    D(Probe<DetFut>),
    B(Probe<BcFut>),
    R(Probe<Receiver<u64>>),
}

impl P {
    fn woken(&self) -> bool {
        match self {
            P::S(p) => p.woken(),
            P::D(p) => p.woken(),
            P::B(p) => p.woken(),
            P::R(p) => p.woken(),
        }
    }
    fn op(&self) -> OpId {
        match self {
            P::S(p) => p.op,
            P::D(p) => p.op,
            P::B(p) => p.op,
            P::R(p) => p.op,
        }
    }
}

struct O {
    m: MsgId,
    p: P,
    strong: bool,
    polled: bool,
}

pub type RecvFut = Pin<Box<dyn Future<Output = Msg>>>;
/// A received message: dispatches it (its type has no public name).
pub struct Msg(pub Box<dyn FnOnce(u32) -> DispFut>);
pub type DispFut = Pin<Box<dyn Future<Output = Flow>>>;

pub struct Flow(pub bool);

impl ToOut for Msg {
    fn to_out(&self) -> Out {
        Out::Done
    }
}
impl ToOut for Flow {
    fn to_out(&self) -> Out {
        if self.0 {
            Out::Done
        } else {
            Out::Gone
        }
    }
}

struct R {
    id: u32,
    g: u32,
    p: Probe<RecvFut>,
    polled: bool,
}

struct Hand {
    g: u32,
    it: Item,
    msg: Msg,
}

struct D {
    g: u32,
    it: Item,
    started: bool,
    pc: usize,
    held: u32,
    stop: bool,
    p: Probe<DispFut>,
}

struct J {
    p: Probe<xtra::address::ActorJoinHandle>,
    at_once: bool,
    polled: bool,
}

type SinkPin = Pin<Box<dyn Sink<Unit, Error = xtra::Error>>>;

struct SinkO {
    s: Rc<RefCell<SinkBox>>,
    strong: bool,
    /// The item on its way: message, probe of the flush, polled before.
    item: Option<(MsgId, Probe<SendFut>, bool)>,
    dead: bool,
}

struct L {
    m: Model,
    hs: Vec<H>,
    mbs: Vec<(u32, Mb)>,
    recvs: Vec<R>,
    hands: Vec<Hand>,
    disps: Vec<D>,
    ops: Vec<O>,
    joins: Vec<J>,
    sinks: Vec<SinkO>,
    next_r: u32,
    gates: [bool; GATES as usize],
    bad: Vec<Violation>,
    /// Wrong answers which do not keep the model from following any further.
    notes: Vec<Violation>,
    seen: usize,
    dead: BTreeSet<MsgId>,
    /// Other mailboxes, numbered from 1.
    next_other: u32,
    other: Vec<(u32, H)>,
    other_mb: Vec<Mailbox<Act>>,
    checks: u64,
    /// The model cannot follow any further.
    over: bool,
    /// How often the last address or mailbox is dropped when it is chosen.
    reckless: u32,
    crowd: (usize, usize),
}

fn poll_once<F>(p: &mut Probe<F>) -> Option<Result<F::Output, String>>
where
    F: Future + Unpin,
    F::Output: ToOut,
{
    let w = futures_util::task::noop_waker();
    let mut cx = Cx::from_waker(&w);
    match sim::catch(|| Pin::new(&mut *p).poll(&mut cx)) {
        Ok(Poll::Ready(v)) => Some(Ok(v)),
        Ok(Poll::Pending) => None,
        Err(e) => Some(Err(e)),
    }
}

impl L {
    fn bad(&mut self, tags: &str, msg: String) {
        if self.bad.is_empty() {
            self.bad.push(Violation {
                props: tags.split(',').map(|s| s.to_string()).collect(),
                rule: "lock-step",
                msg,
            });
        }
    }

    /// A wrong answer which the run goes on after, to see what else is wrong.
    fn note(&mut self, tags: &str, msg: String) {
        let props: Vec<String> = tags.split(',').map(|s| s.to_string()).collect();
        if !self.notes.iter().any(|n| n.props == props) {
            self.notes.push(Violation {
                props,
                rule: "lock-step",
                msg,
            });
        }
    }

    fn spec(&self, m: MsgId) -> MsgSpec {
        self.m.specs[m as usize].clone()
    }

    fn prio(&self, m: MsgId) -> u64 {
        self.m.specs[m as usize].prio.unwrap_or(0) as u64
    }

    /// The model of the first poll of a send. The real one has happened already, such that the
    /// receiver chosen can be seen.
    fn accept_uni(&mut self, m: MsgId) -> OSt {
        if !self.m.connected() {
            return OSt::Closed;
        }
        let p = self.prio(m);
        if !self.m.waiting.is_empty() {
            let k = self
                .m
                .waiting
                .iter()
                .position(|id| self.recvs.iter().any(|r| r.id == *id && r.p.woken()));
            match k {
                Some(k) => {
                    let id = self.m.waiting.remove(k);
                    self.m.rst.insert(id, RSt::Assigned(m));
                }
                None => {
                    self.bad(
                        "C04,C02,C16,C19,C22",
                        format!("message {} was sent while a receiver is waiting, but none was woken", m),
                    );
                    let id = self.m.waiting.remove(0);
                    self.m.rst.insert(id, RSt::Assigned(m));
                }
            }
            return OSt::Accepted;
        }
        if self.m.uni_full() {
            self.m.wait_uni.push_back((p, m));
            return OSt::Waiting;
        }
        self.m.uni.push((p, m, false));
        OSt::Accepted
    }

    fn accept_bc(&mut self, m: MsgId) -> OSt {
        if !self.m.connected() {
            return OSt::Closed;
        }
        let p = self.prio(m);
        if self.m.bc_full() {
            self.m.wait_bc.push_back((p, m));
            return OSt::Waiting;
        }
        if let Some(o) = self.m.ops.get_mut(&m) {
            o.st = OSt::Accepted;
        }
        self.m.push_bc(p, Item::Bc(m));
        OSt::Accepted
    }

    /// Model a payload being made from an address of the given strength.
    fn born(&mut self, m: MsgId, strong: bool) {
        self.m.live.insert(m);
        if matches!(self.spec(m).extra, ExtraSpec::Strong(_)) && strong {
            self.m.heavy.insert(m);
            self.m.strong += 1;
        }
    }

    fn new_op(&mut self, h: usize, m: MsgId, bc: bool, det: bool) {
        let strong = self.hs[h].strong;
        let spec = self.spec(m);
        self.born(m, strong);
        let p = if bc {
            match self.hs[h].broadcast(m, spec.prio) {
                Some(p) => P::B(p),
                None => {
                    // Channels cannot broadcast.
                    self.m.live.remove(&m);
                    return;
                }
            }
        } else if det {
            P::D(self.hs[h].send_detached(m, spec.prio))
        } else {
            P::S(self.hs[h].send(m, spec.prio))
        };
        if strong {
            self.m.strong += 1;
        }
        let prio = self.prio(m);
        self.m.ops.insert(m, MOp { bc, prio, st: OSt::New });
        if !bc {
            self.m.res.insert(m, Res::Open);
        }
        self.ops.push(O {
            m,
            p,
            strong,
            polled: false,
        });
    }

    /// The answer the model expects from polling an operation now.
    fn expect(&self, o: &O) -> Out {
        let mo = &self.m.ops[&o.m];
        let res = |m: &Model| match m.res[&o.m] {
            Res::Open => Out::Pending,
            Res::Val(v) => Out::Val(v),
            Res::Interrupted => Out::Interrupted,
        };
        match (&o.p, mo.st) {
            (P::R(_), _) => res(&self.m),
            (_, OSt::Closed) => Out::Disconnected,
            (_, OSt::Waiting) => Out::Pending,
            (_, OSt::New) => Out::Pending,
            (P::S(_), OSt::Accepted) => res(&self.m),
            (P::D(_) | P::B(_), OSt::Accepted) => Out::Queued,
        }
    }

    fn poll_op(&mut self, k: usize) {
        let m = self.ops[k].m;
        let (out, rest) = {
            let o = &mut self.ops[k];
            macro_rules! go {
                ($p:expr) => {
                    match poll_once($p) {
                        None => (Out::Pending, None),
                        Some(Ok(v)) => (v.to_out(), None),
                        Some(Err(e)) => {
                            self.bad("C04,C03,C22", format!("polling the send of {} panicked: {}", m, e));
                            return;
                        }
                    }
                };
            }
            match &mut o.p {
                P::S(p) => go!(p),
                P::B(p) => go!(p),
                P::R(p) => go!(p),
                P::D(p) => match poll_once(p) {
                    None => (Out::Pending, None),
                    Some(Ok(Ok(r))) => (Out::Queued, Some(r)),
                    Some(Ok(Err(e))) => (
                        match e {
                            xtra::Error::Disconnected => Out::Disconnected,
                            xtra::Error::Interrupted => Out::Interrupted,
                        },
                        None,
                    ),
                    Some(Err(e)) => {
                        self.bad("C04,C03,C22", format!("polling the send of {} panicked: {}", m, e));
                        return;
                    }
                },
            }
        };
        let bc = self.m.ops[&m].bc;
        if self.m.ops[&m].st == OSt::New {
            let st = if bc { self.accept_bc(m) } else { self.accept_uni(m) };
            self.m.ops.get_mut(&m).unwrap().st = st;
            if self.ops[k].strong {
                self.m.strong_dec();
            }
            if st == OSt::Closed {
                self.m.kill(m);
            }
            self.m.gc_bc();
            let want = self.expect(&self.ops[k]);
            if out != want {
                let tags = match (st, &out) {
                    (OSt::Closed, _) | (_, Out::Disconnected) => "C17,C22,C03,C04",
                    (OSt::Waiting, _) if bc => "C08,C11",
                    (OSt::Waiting, _) => "C08",
                    (_, Out::Pending) if bc => "C08,C11,C04",
                    (_, Out::Pending) => "C08,C04,C22",
                    _ => "C03,C22",
                };
                self.bad(tags, format!("first poll of the send of {} answered {:?} instead of {:?}", m, out, want));
                return;
            }
        } else {
            let want = self.expect(&self.ops[k]);
            if out != want {
                let tags = match (&want, &out) {
                    (Out::Pending, Out::Queued) if bc => "C08,C09,C11",
                    (Out::Pending, Out::Queued) => "C08,C09",
                    (_, Out::Pending) if bc => "C04,C09,C11",
                    (_, Out::Pending) => "C04,C09,C19,C03",
                    (Out::Disconnected, _) | (_, Out::Disconnected) => "C17,C03,C22,C04",
                    _ => "C03,C19,C22",
                };
                self.bad(tags, format!("polling the send of {} answered {:?} instead of {:?}", m, out, want));
                return;
            }
        }
        self.ops[k].polled = true;
        if out != Out::Pending {
            let o = self.ops.remove(k);
            drop(o);
            match rest {
                Some(r) => self.ops.push(O {
                    m,
                    p: P::R(Probe::new(Role::Res, m, false, r)),
                    strong: false,
                    polled: false,
                }),
                None => {}
            }
        }
    }

    fn drop_op(&mut self, k: usize) {
        let o = self.ops.remove(k);
        let m = o.m;
        let (is_res, strong) = (matches!(o.p, P::R(_)), o.strong);
        drop(o);
        if is_res {
            return;
        }
        match self.m.ops[&m].st {
            OSt::New => {
                self.m.ops.get_mut(&m).unwrap().st = OSt::Closed;
                if strong {
                    self.m.strong_dec();
                }
                self.m.kill(m);
                self.m.gc_bc();
            }
            OSt::Waiting => {
                self.m.ops.get_mut(&m).unwrap().st = OSt::Closed;
                self.m.wait_uni.retain(|x| x.1 != m);
                self.m.wait_bc.retain(|x| x.1 != m);
                self.m.kill(m);
                self.m.gc_bc();
            }
            _ => {}
        }
    }

    fn recv_new(&mut self, k: usize) {
        let g = self.mbs[k].0;
        let f: RecvFut = Box::pin(Next::of(self.mbs[k].1.inner.as_ref().unwrap().next()).map(|msg| {
            Msg(Box::new(move |g| {
                Box::pin(async move {
                    let mut act = Act {
                        caught: false,
                        id: g,
                        depth: 0,
                        mb: g,
                    };
                    let f = msg.dispatch_to(&mut act).await;
                    Flow(f.is_continue())
                }) as DispFut
            }))
        }));
        let id = self.next_r;
        self.next_r += 1;
        self.m.groups.get_mut(&g).unwrap().refs += 1;
        self.m.rst.insert(id, RSt::New);
        self.recvs.push(R {
            id,
            g,
            p: Probe::new(Role::Recv, NO_MSG, false, f),
            polled: false,
        });
    }

    fn recv_poll(&mut self, k: usize, mut dispatch: bool, keep: bool) {
        let (id, g) = (self.recvs[k].id, self.recvs[k].g);
        let cands = self.m.poll_cands(id, g);
        let st = self.m.rst[&id];
        let got = match poll_once(&mut self.recvs[k].p) {
            None => None,
            Some(Ok(m)) => Some(m),
            Some(Err(e)) => {
                self.bad("C05,C04", format!("polling a receive future panicked: {}", e));
                return;
            }
        };
        self.recvs[k].polled = true;
        match got {
            None => {
                if !cands.is_empty() {
                    let tags = match cands[0] {
                        Item::Shutdown => "C16,C04",
                        Item::Stop => "C14,C04",
                        Item::Bc(_) => "C02,C04,C05,C10,C16",
                        Item::Uni(_) => "C02,C04,C05,C16",
                    };
                    self.bad(
                        tags,
                        format!("receive future {} ({:?}) of mailbox {} stays pending although {:?} is there", id, st, g, cands),
                    );
                    return;
                }
                if st != RSt::Waiting {
                    self.m.rst.insert(id, RSt::Waiting);
                    self.m.waiting.push(id);
                }
            }
            Some(msg) => {
                if cands.is_empty() {
                    // See what it is.
                    self.bad(
                        "C01,C02,C05,C10,C15,C12,C13,C14",
                        format!("receive future {} ({:?}) of mailbox {} completed although nothing is there", id, st, g),
                    );
                    std::mem::forget(msg);
                    return;
                }
                let r = self.recvs.remove(k);
                drop(r);
                self.m.rst.remove(&id);
                // The reference moves from the future to the message.
                if cands.len() > 1 {
                    dispatch = true;
                }
                if dispatch {
                    self.start(g, msg, cands, true);
                } else {
                    self.m.take(g, cands[0]);
                    if keep {
                        self.hands.push(Hand { g, it: cands[0], msg });
                    } else {
                        self.drop_msg(Hand { g, it: cands[0], msg });
                    }
                }
            }
        }
    }

    fn drop_msg(&mut self, h: Hand) {
        drop(h.msg);
        match h.it {
            Item::Uni(m) => self.m.interrupt(m),
            Item::Bc(m) => {
                let k = self.m.hand_bc.iter().position(|x| *x == m).unwrap();
                self.m.hand_bc.remove(k);
                self.m.gc_bc();
            }
            _ => {}
        }
        self.m.unref(h.g);
    }

    fn recv_drop(&mut self, k: usize) {
        let r = self.recvs.remove(k);
        let (id, g) = (r.id, r.g);
        drop(r);
        let st = self.m.rst.remove(&id).unwrap();
        self.m.waiting.retain(|x| *x != id);
        if let RSt::Assigned(m) = st {
            if !self.m.waiting.is_empty() {
                let k = self
                    .m
                    .waiting
                    .iter()
                    .position(|id| self.recvs.iter().any(|r| r.id == *id && r.p.woken()));
                if k.is_none() {
                    self.bad(
                        "C05,C04,C02",
                        format!("message {} was given back while another receiver is waiting, but none was woken", m),
                    );
                }
                let id = self.m.waiting.remove(k.unwrap_or(0));
                self.m.rst.insert(id, RSt::Assigned(m));
            } else {
                let p = self.prio(m);
                self.m.uni.push((p, m, true));
            }
        }
        self.m.unref(g);
    }

    /// Begin dispatching a message which is one of `cands`.
    fn start(&mut self, g: u32, msg: Msg, cands: Vec<Item>, fresh: bool) {
        let fut = (msg.0)(g);
        let mut d = D {
            g,
            it: cands[0],
            started: false,
            pc: 0,
            held: 0,
            stop: false,
            p: Probe::new(Role::Disp, NO_MSG, false, fut),
        };
        let mark = with(|w| w.log.len());
        let got = poll_once(&mut d.p);
        let seen: Option<MsgId> = with(|w| {
            w.log[mark..].iter().find_map(|e| match e {
                Ev::HStart { m, .. } => Some(*m),
                _ => None,
            })
        });
        let it = match seen {
            Some(m) => {
                if self.spec(m).kind == Kind::Bc {
                    Item::Bc(m)
                } else {
                    Item::Uni(m)
                }
            }
            None => {
                if cands.contains(&Item::Stop) && cands.contains(&Item::Shutdown) {
                    // Which of the two it was cannot be told, so the model ends here.
                    self.over = true;
                }
                if cands.contains(&Item::Stop) {
                    Item::Stop
                } else {
                    Item::Shutdown
                }
            }
        };
        if !cands.contains(&it) {
            let p = |x: &Item| match x {
                Item::Uni(m) | Item::Bc(m) => self.prio(*m),
                Item::Stop => STOP,
                Item::Shutdown => 0,
            };
            let have = match it {
                Item::Uni(m) => self.m.uni.iter().any(|x| x.1 == m),
                Item::Bc(_) => self.m.groups[&g].bq.iter().any(|x| x.1 == it),
                _ => false,
            };
            let tags = if !fresh || !have {
                match it {
                    Item::Bc(_) => "C10,C01,C05,C07",
                    Item::Uni(_) => "C01,C02,C05,C07",
                    _ => "C02,C12,C13,C14,C15,C16",
                }
            } else if p(&it) < p(&cands[0]) {
                if cands[0] == Item::Stop {
                    "C07,C14,C22"
                } else {
                    "C07,C22"
                }
            } else {
                "C06,C22"
            };
            let (pi, pc) = (p(&it), p(&cands[0]));
            self.bad(
                tags,
                format!("mailbox {} took {:?} (priority {}) instead of {:?} (priority {})", g, it, pi, cands, pc),
            );
            std::mem::forget(d);
            return;
        }
        d.it = it;
        if fresh {
            self.m.take(g, it);
        }
        if let Item::Bc(m) = it {
            // The handler works on a copy.
            let k = self.m.hand_bc.iter().position(|x| *x == m).unwrap();
            self.m.hand_bc.remove(k);
            self.m.gc_bc();
        }
        d.started = true;
        self.step(d, got);
    }

    /// Model the poll of a dispatch; `got` is what the real one answered.
    fn step(&mut self, mut d: D, got: Option<Result<Flow, String>>) {
        enum End {
            Pending,
            Flow(bool),
            Panic,
        }
        let m = match d.it {
            Item::Uni(m) | Item::Bc(m) => m,
            _ => {
                match got {
                    Some(Ok(Flow(false))) => {}
                    _ => self.bad("C14,C16,C12", "a stop request did not stop".to_string()),
                }
                self.m.unref(d.g);
                return;
            }
        };
        let script = self.spec(m).script;
        let end = loop {
            let Some(a) = script.get(d.pc) else { break End::Flow(!d.stop) };
            match a {
                HAct::Gate(g) => {
                    if !self.gates[*g as usize] {
                        break End::Pending;
                    }
                }
                HAct::StopSelf => d.stop = true,
                HAct::StopAll => self.m.push_bc(STOP, Item::Stop),
                HAct::Panic => break End::Panic,
                HAct::Hold => {
                    if self.m.strong > 0 {
                        self.m.strong += 1;
                        d.held += 1;
                    }
                }
                HAct::SelfSend(m2) => {
                    self.born(*m2, false);
                    match self.accept_uni(*m2) {
                        OSt::Accepted => {}
                        _ => {
                            self.m.wait_uni.retain(|x| x.1 != *m2);
                            self.m.kill(*m2);
                        }
                    }
                }
                HAct::SelfBcast(m2) => {
                    self.born(*m2, false);
                    if self.accept_bc(*m2) != OSt::Accepted {
                        self.m.wait_bc.retain(|x| x.1 != *m2);
                        self.m.live.remove(m2);
                    }
                }
                _ => unreachable!(),
            }
            d.pc += 1;
        };
        match (&end, &got) {
            (End::Pending, None) => {
                self.disps.push(d);
                return;
            }
            (End::Flow(a), Some(Ok(Flow(b)))) => {
                if a != b {
                    self.bad(
                        "C13,C14,C12,C21",
                        format!("handling {} ended with continue = {} instead of {}", m, b, a),
                    );
                }
            }
            (End::Panic, Some(Err(e))) if e.starts_with(USER_PANIC) => {}
            (_, Some(Err(e))) => {
                let e = e.clone();
                self.bad("C19,C04", format!("handling {} panicked: {}", m, e));
            }
            (_, None) => self.bad("C04,C21", format!("the handler of {} hangs", m)),
            (End::Pending, Some(_)) => self.bad("C12", format!("the handler of {} ended early", m)),
            (End::Panic, Some(Ok(_))) => self.bad("C19", format!("the panic of the handler of {} vanished", m)),
        }
        let normal = matches!(end, End::Flow(_));
        drop(d.p);
        for _ in 0..d.held {
            self.m.strong_dec();
        }
        if let Item::Uni(m) = d.it {
            if normal {
                let v = if self.spec(m).kind == Kind::Unit {
                    UNIT_RET
                } else {
                    ret_of(m, d.g)
                };
                if self.m.res.get(&m) == Some(&Res::Open) {
                    self.m.res.insert(m, Res::Val(v));
                }
                self.m.kill(m);
            } else {
                self.m.interrupt(m);
            }
        }
        self.m.unref(d.g);
    }

    fn disp_poll(&mut self, k: usize) {
        let mut d = self.disps.remove(k);
        let got = poll_once(&mut d.p);
        self.step(d, got);
    }

    fn disp_drop(&mut self, k: usize) {
        let d = self.disps.remove(k);
        drop(d.p);
        with(|w| w.stats.disp_cancels += 1);
        for _ in 0..d.held {
            self.m.strong_dec();
        }
        if let Item::Uni(m) = d.it {
            self.m.interrupt(m);
        }
        self.m.unref(d.g);
    }

    fn drop_handle(&mut self, k: usize) {
        let h = self.hs.remove(k);
        let s = h.strong;
        drop(h);
        if s {
            self.m.strong_dec();
        }
    }

    fn drop_mb(&mut self, k: usize) {
        let (g, mb) = self.mbs.remove(k);
        drop(mb);
        self.m.unref(g);
    }

    fn sink_expect(&self, m: MsgId) -> Out {
        match self.m.ops[&m].st {
            OSt::New | OSt::Waiting => Out::Pending,
            OSt::Closed => Out::Disconnected,
            OSt::Accepted => match self.m.res[&m] {
                Res::Open => Out::Pending,
                Res::Val(v) => Out::Val(v),
                Res::Interrupted => Out::Interrupted,
            },
        }
    }

    fn sink_send(&mut self, k: usize, m: MsgId) {
        if self.sinks[k].dead || self.sinks[k].item.is_some() {
            return;
        }
        // Ready, since nothing is on its way.
        let w = futures_util::task::noop_waker();
        let mut cx = Cx::from_waker(&w);
        let s = self.sinks[k].s.clone();
        let r = s.borrow_mut().s.as_mut().unwrap().as_mut().poll_ready(&mut cx);
        if !matches!(r, Poll::Ready(Ok(()))) {
            self.bad("C22,C04", format!("an idle sink is not ready for message {}: {:?}", m, r.map(|x| x.is_ok())));
            return;
        }
        let strong = self.sinks[k].strong;
        self.m.live.insert(m);
        if let Err(_) = s.borrow_mut().s.as_mut().unwrap().as_mut().start_send(Unit(Pay::new(m, None))) {
            self.bad("C22,C03", format!("a sink failed to take message {}", m));
            return;
        }
        if strong {
            self.m.strong += 1;
        }
        let prio = self.prio(m);
        self.m.ops.insert(
            m,
            MOp {
                bc: false,
                prio,
                st: OSt::New,
            },
        );
        self.m.res.insert(m, Res::Open);
        let s2 = s.clone();
        let f: SendFut = Box::pin(poll_fn(move |cx| {
            let mut b = s2.borrow_mut();
            let p: &mut SinkPin = b.s.as_mut().unwrap();
            p.as_mut().poll_flush(cx).map(|r| r.map(|()| UNIT_RET))
        }));
        let p = Probe::new(Role::Sink, m, false, f);
        self.sinks[k].item = Some((m, p, false));
    }

    fn sink_poll(&mut self, k: usize) {
        let strong = self.sinks[k].strong;
        let Some((m, mut p, polled)) = self.sinks[k].item.take() else { return };
        let out = match poll_once(&mut p) {
            None => Out::Pending,
            Some(Ok(v)) => v.to_out(),
            Some(Err(e)) => {
                self.bad("C22,C04", format!("flushing a sink panicked: {}", e));
                return;
            }
        };
        let _ = polled;
        if self.m.ops[&m].st == OSt::New {
            let st = self.accept_uni(m);
            self.m.ops.get_mut(&m).unwrap().st = st;
            if strong {
                self.m.strong_dec();
            }
            if st == OSt::Closed {
                self.m.kill(m);
            }
        }
        let want = self.sink_expect(m);
        if out != want {
            self.bad("C22,C03,C08,C17", format!("flushing a sink with message {} answered {:?} instead of {:?}", m, out, want));
            return;
        }
        match out {
            Out::Pending => self.sinks[k].item = Some((m, p, true)),
            Out::Val(_) => {}
            _ => self.sinks[k].dead = true,
        }
    }

    fn sink_drop(&mut self, k: usize) {
        let s = self.sinks.remove(k);
        let it = s.item.map(|(m, p, _)| {
            drop(p);
            m
        });
        drop(s.s);
        if let Some(m) = it {
            match self.m.ops[&m].st {
                OSt::New => {
                    self.m.ops.get_mut(&m).unwrap().st = OSt::Closed;
                    if s.strong {
                        self.m.strong_dec();
                    }
                    self.m.kill(m);
                }
                OSt::Waiting => {
                    self.m.ops.get_mut(&m).unwrap().st = OSt::Closed;
                    self.m.wait_uni.retain(|x| x.1 != m);
                    self.m.kill(m);
                }
                _ => {}
            }
        }
        if s.strong {
            self.m.strong_dec();
        }
    }

    fn join_poll(&mut self, k: usize) {
        let got = poll_once(&mut self.joins[k].p).is_some();
        self.joins[k].polled = true;
        let must = self.joins[k].at_once || !self.m.rx();
        let may = must || !self.m.connected();
        if got && !may {
            self.bad("C17,C22", "a join handle completed while the address is connected".into());
        } else if !got && must {
            self.bad("C17,C22,C04", "a join handle is pending although the last mailbox is gone".into());
        }
        if got {
            self.joins.remove(k);
        }
    }

    /// Queries on all handles, wake-ups, and the payloads that exist.
    fn compare(&mut self, full: bool) {
        if !self.bad.is_empty() {
            return;
        }
        self.checks += 1;
        // Destroyed payloads.
        let (n, new): (usize, Vec<MsgId>) = with(|w| {
            let v = w.log[self.seen..]
                .iter()
                .filter_map(|e| match e {
                    Ev::PayDrop { m, copy: 0 } => Some(*m),
                    _ => None,
                })
                .collect();
            (w.log.len(), v)
        });
        self.seen = n;
        for m in new {
            if !self.dead.insert(m) {
                self.bad("C18,C01", format!("message {} was destroyed twice", m));
            }
            if self.m.live.contains(&m) {
                self.bad(
                    "C02,C05,C18,C10,C16,C09",
                    format!("message {} was destroyed too early", m),
                );
            }
        }
        for m in self.m.res.keys().chain(self.m.ops.keys()) {
            if !self.m.live.contains(m) && !self.dead.contains(m) {
                let m = *m;
                self.bad("C18,C02", format!("message {} is not destroyed although nothing needs it", m));
                break;
            }
        }
        // Wake-ups.
        let mut lost: Option<(&str, String)> = None;
        for o in &self.ops {
            if o.polled && !o.p.woken() && self.expect(o) != Out::Pending {
                let tags = match self.m.ops[&o.m].st {
                    OSt::Closed => "C04,C17",
                    _ if self.m.ops[&o.m].bc => "C04,C09,C11",
                    _ => "C04,C09,C19,C03,C22",
                };
                lost = Some((tags, format!("the send of {} (op {}) is ready but was not woken", o.m, o.p.op())));
            }
        }
        for r in &self.recvs {
            let st = self.m.rst[&r.id];
            if r.polled && !r.p.woken() && !matches!(st, RSt::New | RSt::Waiting) {
                let tags = match st {
                    RSt::WokenShut => "C04,C16",
                    RSt::WokenBc => "C04,C10,C14,C02",
                    _ => "C04,C02,C05",
                };
                lost = Some((tags, format!("receive future {} ({:?}) of mailbox {} was not woken", r.id, st, r.g)));
            }
        }
        for d in &self.disps {
            let m = match d.it {
                Item::Uni(m) | Item::Bc(m) => m,
                _ => continue,
            };
            if let Some(HAct::Gate(g)) = self.m.specs[m as usize].script.get(d.pc) {
                if self.gates[*g as usize] && !d.p.woken() {
                    lost = Some(("C04,C21", format!("the handler of {} was not woken", m)));
                }
            }
        }
        for j in &self.joins {
            if j.polled && !j.p.woken() && !self.m.rx() {
                lost = Some(("C17,C04,C20", "a join handle was not woken".into()));
            }
        }
        for s in &self.sinks {
            if let Some((m, p, true)) = &s.item {
                if !p.woken() && self.sink_expect(*m) != Out::Pending {
                    lost = Some(("C22,C04", format!("the sink with message {} was not woken", m)));
                }
            }
        }
        if let Some((t, m)) = lost {
            self.note(t, m);
        }
        if !full {
            return;
        }
        let conn = self.m.connected();
        let stops = self
            .m
            .groups
            .values()
            .map(|g| g.bq.iter().filter(|x| x.1 != Item::Stop).count())
            .max()
            .unwrap_or(0);
        let lo = self.m.uni.len() + stops;
        let hi = self.m.uni.len() + self.m.tail();
        for k in 0..self.hs.len() {
            let h = &self.hs[k];
            let chan = if h.is_chan() { "C22," } else { "" };
            let c = h.is_connected();
            if c != conn {
                self.bad(
                    &format!("{}C17,C15", chan),
                    format!("is_connected is {} with {} strong addresses and {} mailboxes", c, self.m.strong, self.m.groups.len()),
                );
                return;
            }
            let h = &self.hs[k];
            let n = h.len();
            if n < lo || n > hi {
                self.note(
                    &format!("{}C23", chan),
                    format!(
                        "length {} with {} queued messages and at most {} broadcasts to take",
                        n,
                        self.m.uni.len(),
                        self.m.tail()
                    ),
                );
                // Is it only the length, or have sends been admitted that should not have been?
                let waiting: Vec<OpId> = self.ops.iter().filter(|o| o.polled).map(|o| o.p.op()).collect();
                for op in waiting {
                    if let Some(k) = self.ops.iter().position(|o| o.p.op() == op && self.expect(o) == Out::Pending) {
                        self.poll_op(k);
                        if !self.bad.is_empty() {
                            return;
                        }
                    }
                }
            }
            let h = &self.hs[k];
            if h.is_empty_raw() != (n == 0) {
                self.bad(&format!("{}C23", chan), format!("is_empty is {} with length {}", n != 0, n));
                return;
            }
            let h = &self.hs[k];
            if h.capacity() != self.m.cap {
                self.bad(&format!("{}C23", chan), format!("capacity {:?} instead of {:?}", h.capacity(), self.m.cap));
                return;
            }
        }
    }

    /// Handles of this mailbox (number 0) and of some others: equality, order and hashes.
    fn equality(&mut self, r: u64) {
        let mut r = Rng::new(r);
        match r.below(8) {
            0 | 1 if self.next_other < 5 => self.new_other(),
            2 if !self.other_mb.is_empty() => {
                let k = r.below(self.other_mb.len() as u64) as usize;
                drop(self.other_mb.remove(k));
            }
            3 if !self.other.is_empty() => {
                let k = r.below(self.other.len() as u64) as usize;
                drop(self.other.remove(k));
            }
            4 if !self.other.is_empty() => {
                let k = r.below(self.other.len() as u64) as usize;
                let (id, h) = &self.other[k];
                let new = match r.below(4) {
                    0 => h.chan(),
                    1 => h.either(),
                    2 => h.downgrade(),
                    _ => h.dup(),
                };
                let id = *id;
                self.other.push((id, new));
            }
            _ => {}
        }
        let weak = match self.mbs.len() {
            0 => None,
            n => self.mbs[r.below(n as u64) as usize].1.inner.as_ref().map(|m| Any::W(m.address())),
        };
        let mut ids: Vec<Id<'_>> = vec![];
        for _ in 0..5 {
            if !self.hs.is_empty() {
                let h = &self.hs[r.below(self.hs.len() as u64) as usize];
                ids.push((h.any(), 0, h.strong));
            }
        }
        for _ in 0..4 {
            if !self.other.is_empty() {
                let (id, h) = &self.other[r.below(self.other.len() as u64) as usize];
                ids.push((h.any(), *id, h.strong));
            }
        }
        if let Some(w) = &weak {
            ids.push((w, 0, false));
        }
        if let Some(m) = ident::check(&ids) {
            self.bad("C25,C22", m);
        }
    }

    fn new_other(&mut self) {
        self.next_other += 1;
        let id = self.next_other;
        let (a, mb) = Mailbox::<Act>::unbounded();
        let o = H::adopt(Any::S(a), true);
        self.other.push((id, o.downgrade()));
        self.other.push((id, o.chan()));
        self.other.push((id, o.either()));
        self.other.push((id, o));
        self.other_mb.push(mb);
    }

    fn run_op(&mut self, o: &LOp) {
        let mut r = Rng::new(o.r);
        let pick = |n: usize, r: &mut Rng| r.below(n as u64) as usize;
        match o.kind {
            LKind::Send if !self.hs.is_empty() => {
                let h = pick(self.hs.len(), &mut r);
                self.new_op(h, o.id, false, r.pct(50));
                if r.pct(92) {
                    self.poll_op(self.ops.len() - 1);
                }
            }
            LKind::Bcast if !self.hs.is_empty() => {
                let h = pick(self.hs.len(), &mut r);
                if !self.hs[h].is_chan() {
                    self.new_op(h, o.id, true, false);
                    if r.pct(92) {
                        self.poll_op(self.ops.len() - 1);
                    }
                }
            }
            LKind::PollOp if !self.ops.is_empty() => {
                let k = pick(self.ops.len(), &mut r);
                // Mostly those that were woken.
                let w: Vec<usize> = (0..self.ops.len()).filter(|k| self.ops[*k].p.woken() || !self.ops[*k].polled).collect();
                let k = if !w.is_empty() && r.pct(80) { w[pick(w.len(), &mut r)] } else { k };
                self.poll_op(k);
            }
            LKind::DropOp if !self.ops.is_empty() => {
                with(|w| w.stats.send_cancels += 1);
                let k = pick(self.ops.len(), &mut r);
                self.drop_op(k)
            }
            LKind::RecvNew if !self.mbs.is_empty() => {
                let k = pick(self.mbs.len(), &mut r);
                self.recv_new(k);
                if r.pct(85) {
                    self.recv_poll(self.recvs.len() - 1, false, true);
                }
            }
            LKind::RecvPoll if !self.recvs.is_empty() => {
                let k = pick(self.recvs.len(), &mut r);
                let w: Vec<usize> = (0..self.recvs.len()).filter(|k| self.recvs[*k].p.woken()).collect();
                let k = if !w.is_empty() && r.pct(70) { w[pick(w.len(), &mut r)] } else { k };
                self.recv_poll(k, r.pct(50), true);
            }
            LKind::RecvDrop if !self.recvs.is_empty() => {
                with(|w| w.stats.recv_cancels += 1);
                let k = pick(self.recvs.len(), &mut r);
                let w: Vec<usize> = (0..self.recvs.len()).filter(|k| self.recvs[*k].p.woken()).collect();
                let k = if !w.is_empty() && r.pct(60) { w[pick(w.len(), &mut r)] } else { k };
                self.recv_drop(k);
            }
            LKind::RecvDispatch if !self.mbs.is_empty() => {
                let k = pick(self.mbs.len(), &mut r);
                self.recv_new(k);
                let k = self.recvs.len() - 1;
                let before = self.recvs.len();
                self.recv_poll(k, true, true);
                if self.recvs.len() == before && self.bad.is_empty() && r.pct(70) {
                    // Nothing there: do not pile up receivers.
                    self.recv_drop(k);
                }
            }
            LKind::Dispatch if !self.hands.is_empty() => {
                let k = pick(self.hands.len(), &mut r);
                let h = self.hands.remove(k);
                self.start(h.g, h.msg, vec![h.it], false);
            }
            LKind::MsgDrop if !self.hands.is_empty() => {
                let k = pick(self.hands.len(), &mut r);
                let h = self.hands.remove(k);
                self.drop_msg(h);
            }
            LKind::DispPoll if !self.disps.is_empty() => {
                let k = pick(self.disps.len(), &mut r);
                self.disp_poll(k);
            }
            LKind::DispDrop if !self.disps.is_empty() => {
                let k = pick(self.disps.len(), &mut r);
                self.disp_drop(k);
            }
            LKind::OpenGate => {
                let g = r.below(GATES as u64) as u32;
                self.gates[g as usize] = true;
                open_gate(g);
            }
            LKind::Dup if !self.hs.is_empty() && self.hs.len() < self.crowd.0 => {
                let k = pick(self.hs.len(), &mut r);
                let h = self.hs[k].dup();
                self.m.strong += h.strong as i64;
                self.hs.push(h);
            }
            LKind::Convert if !self.hs.is_empty() && self.hs.len() < self.crowd.0 => {
                let k = pick(self.hs.len(), &mut r);
                let h = match r.below(4) {
                    0 => self.hs[k].downgrade(),
                    1 => self.hs[k].either(),
                    2 => self.hs[k].chan(),
                    _ => match self.mbs.first() {
                        Some((_, mb)) => H::adopt(Any::W(mb.inner.as_ref().unwrap().address()), false),
                        None => self.hs[k].downgrade(),
                    },
                };
                self.m.strong += h.strong as i64;
                self.hs.push(h);
            }
            LKind::Upgrade => {
                let w: Vec<usize> = (0..self.hs.len()).filter(|k| matches!(self.hs[*k].any(), Any::W(_))).collect();
                if w.is_empty() {
                    return;
                }
                let k = w[pick(w.len(), &mut r)];
                let u = self.hs[k].upgrade().unwrap();
                if u.is_some() != (self.m.strong > 0) {
                    self.bad("C15,C22", format!("upgrade succeeded: {} with {} strong addresses", u.is_some(), self.m.strong));
                }
                if let Some(h) = u {
                    self.m.strong += 1;
                    self.hs.push(h);
                }
            }
            LKind::DropHandle if !self.hs.is_empty() => {
                // The last strong address only sometimes.
                let k = pick(self.hs.len(), &mut r);
                if self.hs[k].strong && self.m.strong == 1 && !r.pct(self.reckless) {
                    return;
                }
                self.drop_handle(k);
            }
            LKind::MbClone if !self.mbs.is_empty() && self.mbs.len() < self.crowd.1 => {
                let k = pick(self.mbs.len(), &mut r);
                self.clone_mb(k);
            }
            LKind::MbDrop if !self.mbs.is_empty() => {
                if self.mbs.len() == 1 && !r.pct(self.reckless) {
                    return;
                }
                let k = pick(self.mbs.len(), &mut r);
                self.drop_mb(k);
            }
            LKind::Join if !self.hs.is_empty() => {
                let k = pick(self.hs.len(), &mut r);
                let at_once = !self.m.connected();
                let p = Probe::new(Role::Join, NO_MSG, false, self.hs[k].join());
                self.joins.push(J {
                    p,
                    at_once,
                    polled: false,
                });
                if r.pct(80) {
                    self.join_poll(self.joins.len() - 1);
                }
            }
            LKind::JoinPoll if !self.joins.is_empty() => {
                let k = pick(self.joins.len(), &mut r);
                if r.pct(15) {
                    self.joins.remove(k);
                } else {
                    self.join_poll(k);
                }
            }
            LKind::SinkNew if !self.hs.is_empty() && self.sinks.len() < 3 => {
                let k = pick(self.hs.len(), &mut r);
                if let Some(s) = self.hs[k].sink() {
                    let strong = s.strong;
                    self.m.strong += strong as i64;
                    self.sinks.push(SinkO {
                        s: Rc::new(RefCell::new(s)),
                        strong,
                        item: None,
                        dead: false,
                    });
                }
            }
            LKind::SinkSend if !self.sinks.is_empty() => {
                let k = pick(self.sinks.len(), &mut r);
                self.sink_send(k, o.id);
                if r.pct(80) && self.bad.is_empty() {
                    self.sink_poll(k);
                }
            }
            LKind::SinkPoll if !self.sinks.is_empty() => {
                let k = pick(self.sinks.len(), &mut r);
                if r.pct(10) || self.sinks[k].dead {
                    self.sink_drop(k);
                } else {
                    self.sink_poll(k);
                }
            }
            LKind::Compare => self.equality(o.r),
            LKind::RepollAll => {
                let mut k = 0;
                while k < self.ops.len() && self.bad.is_empty() {
                    let n = self.ops.len();
                    let op = self.ops[k].p.op();
                    self.poll_op(k);
                    if self.ops.len() == n && self.ops[k].p.op() == op {
                        k += 1;
                    } else if self.ops.len() == n {
                        // A detached send became its result, at the end.
                    }
                }
            }
            _ => {}
        }
    }

    fn clone_mb(&mut self, k: usize) {
        let mb = Mb::clone_of(self.mbs[k].1.inner.as_ref().unwrap());
        let g = mb.id;
        self.m.groups.insert(
            g,
            Group {
                refs: 1,
                bq: vec![],
            },
        );
        self.mbs.push((g, mb));
    }

    fn load(&mut self, (addresses, mailboxes): (u32, u32)) {
        for i in 0..addresses {
            let h = match i % 5 {
                0 => self.hs[0].either(),
                1 => self.hs[0].chan(),
                _ => self.hs[0].dup(),
            };
            self.m.strong += h.strong as i64;
            self.hs.push(h);
        }
        for i in 0..mailboxes {
            self.clone_mb(i as usize / 2);
        }
    }

    /// A message comes and goes.
    fn warm_up(&mut self, bc: bool) {
        let w = futures_util::task::noop_waker();
        let mut cx = Cx::from_waker(&w);
        let (g, mb) = &self.mbs[0];
        let (Any::S(a), Some(mb)) = (self.hs[0].any(), &mb.inner) else { return };
        let mut act = Act {
            caught: false,
            id: *g,
            depth: 0,
            mb: *g,
        };
        let mut f: Pin<Box<dyn Future<Output = ()>>> = if bc {
            Box::pin(a.broadcast(Tick).map(|_| ()))
        } else {
            Box::pin(a.send(Tick).detach().map(|_| ()))
        };
        let _ = f.as_mut().poll(&mut cx);
        if let Poll::Ready(m) = mb.next().poll_unpin(&mut cx) {
            let _ = Box::pin(m.dispatch_to(&mut act)).poll_unpin(&mut cx);
        }
    }

    /// Let go of everything, in an order given by the seed.
    fn finish(&mut self, tail: u64) {
        let mut r = Rng::new(tail);
        let full = r.pct(50);
        // Sometimes the addresses go first, or the mailboxes.
        let first = r.below(6);
        loop {
            if !self.bad.is_empty() {
                return;
            }
            let mut c: Vec<(u32, usize)> = vec![];
            for (i, n) in [
                self.hs.len(),
                self.mbs.len(),
                self.recvs.len(),
                self.hands.len(),
                self.disps.len(),
                self.ops.len(),
                self.joins.len(),
                self.sinks.len(),
            ]
            .iter()
            .enumerate()
            {
                if *n > 0 {
                    c.push((i as u32, *n));
                }
            }
            if c.is_empty() {
                break;
            }
            let (k, n) = match c.iter().find(|x| x.0 as u64 == first) {
                Some(x) if first < 2 => *x,
                _ => *r.pick(&c),
            };
            let i = r.below(n as u64) as usize;
            let poll = r.pct(40);
            match k {
                0 => self.drop_handle(i),
                1 => {
                    if poll && self.recvs.len() < 4 {
                        self.recv_new(i);
                        let j = self.recvs.len() - 1;
                        self.recv_poll(j, true, true);
                    } else {
                        self.drop_mb(i)
                    }
                }
                2 => {
                    if poll {
                        self.recv_poll(i, true, true)
                    } else {
                        self.recv_drop(i)
                    }
                }
                3 => {
                    let h = self.hands.remove(i);
                    if poll {
                        self.start(h.g, h.msg, vec![h.it], false)
                    } else {
                        self.drop_msg(h)
                    }
                }
                4 => self.disp_drop(i),
                5 => {
                    if poll {
                        self.poll_op(i)
                    } else {
                        self.drop_op(i)
                    }
                }
                6 => {
                    if poll {
                        self.join_poll(i)
                    } else {
                        self.joins.remove(i);
                    }
                }
                _ => {
                    if poll {
                        self.sink_poll(i)
                    }
                    if self.bad.is_empty() {
                        self.sink_drop(i)
                    }
                }
            }
            if self.over {
                return;
            }
            self.compare(full);
        }
        if self.m.strong != 0 || self.m.rx() || !self.m.live.is_empty() {
            // Only messages holding an address to themselves could be left, and those died with the last mailbox.
            let l: Vec<_> = self.m.live.iter().collect();
            sim::fail("harness", &format!("model not empty: strong {}, live {:?}", self.m.strong, l));
        }
        self.other.clear();
        self.other_mb.clear();
        for g in 0..GATES {
            open_gate(g);
        }
        let n = with(|w| w.live_wakers);
        if n != 0 {
            self.bad("C18,C04", format!("{} wakers are still held after everything is gone", n));
        }
    }
}

fn driver(p: LProg, bad: Rc<RefCell<Vec<Violation>>>) {
    let (a, mb) = match p.cap {
        Some(c) => Mailbox::<Act>::bounded(c),
        None => Mailbox::<Act>::unbounded(),
    };
    let g = new_mb_id();
    let mut groups = BTreeMap::new();
    groups.insert(
        g,
        Group {
            refs: 1,
            bq: vec![],
        },
    );
    let mut l = L {
        m: Model {
            cap: p.cap,
            strong: 1,
            uni: vec![],
            wait_uni: VecDeque::new(),
            wait_bc: VecDeque::new(),
            groups,
            waiting: vec![],
            rst: BTreeMap::new(),
            ops: BTreeMap::new(),
            res: BTreeMap::new(),
            live: BTreeSet::new(),
            hand_bc: vec![],
            specs: Rc::new(p.msgs.clone()),
            heavy: BTreeSet::new(),
        },
        hs: vec![H::adopt(Any::S(a), true)],
        mbs: vec![(
            g,
            Mb {
                id: g,
                inner: Some(mb),
            },
        )],
        recvs: vec![],
        hands: vec![],
        disps: vec![],
        ops: vec![],
        joins: vec![],
        sinks: vec![],
        next_r: 0,
        gates: [false; GATES as usize],
        bad: vec![],
        notes: vec![],
        seen: 0,
        dead: BTreeSet::new(),
        next_other: 0,
        other: vec![],
        other_mb: vec![],
        checks: 0,
        over: false,
        reckless: p.reckless,
        crowd: p.crowd,
    };
    l.new_other();
    for i in 0..p.warm {
        l.warm_up(i % 16 == 0 && p.tail % 3 == 0);
    }
    if p.warm < 10_000 {
        l.load(p.ballast);
    }
    for op in &p.ops {
        log(Ev::LOp { id: op.id });
        l.run_op(op);
        if l.over {
            break;
        }
        l.compare(true);
        if !l.bad.is_empty() {
            break;
        }
    }
    if l.bad.is_empty() && !l.over {
        log(Ev::Phase { n: 3 });
        l.finish(p.tail);
    }
    with(|w| w.stats.checks += l.checks);
    if l.bad.is_empty() {
        log(Ev::Phase { n: 6 });
    }
    let mut all = std::mem::take(&mut l.notes);
    let apart = !l.bad.is_empty();
    all.append(&mut l.bad);
    *bad.borrow_mut() = all;
    if apart {
        // The model and the code disagree: dropping things is not meaningful any more.
        std::mem::forget(l);
    }
}

pub fn run(p: &LProg, seed: u64, run_no: u64) -> (RunOut, Vec<Violation>) {
    BOOK.with(|b| {
        *b.borrow_mut() = Rc::new(Book {
            msgs: p.msgs.clone(),
            actors: vec![],
        })
    });
    let bad: Rc<RefCell<Vec<Violation>>> = Rc::default();
    let b2 = bad.clone();
    let p2 = p.clone();
    let rep = exec::run_with(
        seed,
        run_no,
        sim::Strategy::RunToBlock,
        p.cap,
        0,
        None,
        Box::new(move || driver(p2, b2)),
    );
    let out = exec::finish(rep);
    let mut v = std::mem::take(&mut *bad.borrow_mut());
    if let Some((c, m)) = &out.rep.failure {
        v.push(crate::check::from_failure(c, m));
    }
    (out, v)
}

pub fn describe(p: &LProg, o: &RunOut) -> String {
    let mut s = format!("lock-step program: capacity {:?}\n", p.cap);
    for op in &p.ops {
        s += &format!("  operation {}: {:?}\n", op.id, op.kind);
    }
    let used: BTreeSet<MsgId> = o
        .log
        .iter()
        .filter_map(|e| match e {
            Ev::OpNew { m, .. } if *m != NO_MSG => Some(*m),
            _ => None,
        })
        .collect();
    for m in used {
        s += &format!("  message {}: {:?}\n", m, p.msgs[m as usize]);
    }
    s
}
