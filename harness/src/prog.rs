//! Random programs: what the simulated clients, messages and actors of a run do.

use spin::sim::Strategy;

use crate::helpers::Via;
use crate::act::*;
use crate::rng::{mix, Rng};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SendMode {
    Await,
    Timeout(u64),
    /// Poll at most this many times more than once, then drop.
    PollDrop(u32),
    DetAwait,
    DetDrop,
    DetHold,
    DetTimeout(u64),
    /// In a task of its own.
    Spawn,
    SpawnDet,
    /// Dropped without having been polled.
    Unpolled,
    /// Polled once, awaited at the end of the client.
    Hold,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WaitMode {
    Spawn,
    Timeout(u64),
    Unpolled,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OpKind {
    Send { slot: u32, m: MsgId, mode: SendMode },
    Bcast { slot: u32, m: MsgId, mode: SendMode },
    Clone { slot: u32 },
    Down { slot: u32 },
    Up { slot: u32 },
    Either { slot: u32 },
    Chan { slot: u32 },
    Drop { slot: u32 },
    Query { slot: u32 },
    /// Compare all handles with each other and with those of an unrelated mailbox.
    Ident,
    Join { slot: u32, mode: WaitMode },
    Scoped { slot: u32, inner: Inner, mode: WaitMode },
    Sink { slot: u32, ms: Vec<MsgId> },
    CloneMb { mb: u32 },
    DropMb { mb: u32 },
    Start { mb: u32, actor: ActorId },
    Abort { actor: ActorId },
    Sleep(u64),
    Yield(u32),
    OpenGate(u32),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub id: u32,
    pub k: OpKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SlotInit {
    Strong,
    Weak,
    Either,
    EitherWeak,
    Chan,
    ChanWeak,
    ChanEither,
}

#[derive(Clone, Debug)]
pub struct Client {
    pub slots: Vec<SlotInit>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub cap: Option<usize>,
    pub mbs: u32,
    /// Actors started by the driver, on mailbox i.
    pub start_now: Vec<ActorId>,
    pub clients: Vec<Client>,
    pub msgs: Vec<MsgSpec>,
    pub actors: Vec<ActorSpec>,
    pub gates: u32,
    /// The driver keeps a strong address until phase 3.
    pub keep_strong: bool,
    /// Mailboxes left without an actor are run (or dropped) once the workload is over.
    pub park_run: bool,
    pub strategy: Strategy,
    pub spurious: u32,
    pub timer_num: u32,
    pub cas_num: u32,
    pub fault_budget: u32,
    pub span_level: u32,
    pub via: Via,
}

/// Relative weights and probabilities (percent) of a workload.
#[derive(Clone, Debug)]
pub struct Prof {
    pub caps: Vec<(u32, Option<usize>)>,
    pub max_mbs: u32,
    pub parked: u32,
    pub max_clients: u32,
    pub max_ops: u32,
    pub w_send: u32,
    pub w_bcast: u32,
    pub w_addr: u32,
    pub w_up: u32,
    pub w_drop: u32,
    pub w_query: u32,
    pub w_ident: u32,
    pub w_join: u32,
    pub w_scoped: u32,
    pub w_sink: u32,
    pub w_mb: u32,
    pub w_abort: u32,
    pub w_time: u32,
    /// Weights of send modes in the order of [`SendMode`].
    pub modes: [u32; 11],
    pub prio: u32,
    pub script: u32,
    pub s_wait: u32,
    pub s_stop: u32,
    pub s_stop_all: u32,
    pub s_panic: u32,
    pub s_send: u32,
    pub s_nest: u32,
    pub s_hold: u32,
    pub s_sib: u32,
    pub never: bool,
    pub extra: u32,
    pub drop_send: bool,
    pub custom: u32,
    pub yield_once: u32,
    pub select_top: u32,
    pub drop_msg: bool,
    pub bad_start: u32,
    pub start_nest: u32,
    pub chans: u32,
    pub weak: u32,
    pub keep_strong: u32,
    /// Percentage of sends and broadcasts that come in bursts.
    pub burst: u32,
    /// Limit of the number of messages.
    pub max_msgs: usize,
}

pub fn base() -> Prof {
    Prof {
        caps: vec![
            (3, None),
            (1, Some(0)),
            (4, Some(1)),
            (3, Some(2)),
            (1, Some(3)),
            (1, Some(8)),
        ],
        max_mbs: 3,
        parked: 25,
        max_clients: 4,
        max_ops: 6,
        w_send: 50,
        w_bcast: 15,
        w_addr: 8,
        w_up: 6,
        w_drop: 8,
        w_query: 5,
        w_ident: 0,
        w_join: 4,
        w_scoped: 3,
        w_sink: 4,
        w_mb: 5,
        w_abort: 3,
        w_time: 8,
        modes: [20, 8, 8, 8, 14, 10, 4, 12, 10, 2, 4],
        prio: 30,
        script: 50,
        s_wait: 40,
        s_stop: 4,
        s_stop_all: 3,
        s_panic: 4,
        s_send: 8,
        s_nest: 10,
        s_hold: 4,
        s_sib: 3,
        never: true,
        extra: 8,
        drop_send: true,
        custom: 30,
        yield_once: 10,
        select_top: 5,
        drop_msg: false,
        bad_start: 3,
        start_nest: 3,
        chans: 20,
        weak: 25,
        keep_strong: 60,
        burst: 20,
        max_msgs: 60,
    }
}

/// The workload a property's check concentrates on; every feature stays possible.
pub fn profile(prop: &str, r: &mut Rng) -> Prof {
    let mut p = base();
    // Swarm: switch whole features off at random so that the others get more weight.
    macro_rules! off {
        ($($f:ident),*) => {$( if r.pct(35) { p.$f = 0; } )*};
    }
    off!(
        w_bcast, w_addr, w_up, w_drop, w_query, w_join, w_scoped, w_sink, w_mb, w_abort, w_time, prio,
        s_wait, s_stop, s_stop_all, s_panic, s_send, s_nest, s_hold, s_sib, extra, custom, yield_once,
        select_top, bad_start
    );
    if r.pct(50) {
        p.never = false;
    } else {
        p.s_hold = 0;
    }
    if r.pct(30) {
        p.drop_msg = true;
    }
    if r.pct(30) {
        p.max_mbs = 1;
    }
    if r.pct(20) {
        p.keep_strong = 0;
    }
    if r.pct(25) {
        p.max_clients = 6;
        p.max_ops = 10;
    } else if r.pct(35) {
        p.max_clients = 2;
        p.max_ops = 4;
    }
    match prop {
        "C01" => {
            p.max_mbs = 3;
            p.w_send = 70;
            p.w_bcast = 25;
            p.custom = 40;
        }
        "C02" => {
            p.w_abort = 4;
            p.keep_strong = 75;
            p.modes[4] = 25;
            p.modes[5] = 20;
        }
        "C03" => {
            p.s_panic = 8;
            p.w_abort = 5;
            p.modes[0] = 30;
            p.modes[7] = 25;
        }
        "C04" => {
            p.caps = vec![(2, Some(0)), (4, Some(1)), (2, Some(2)), (1, None)];
            p.modes[0] = 30;
            p.modes[7] = 25;
            p.modes[8] = 20;
        }
        "C05" => {
            p.custom = 100;
            p.w_bcast = 15;
            p.drop_msg = false;
        }
        "C06" => {
            p.max_mbs = 1;
            p.custom = 0;
            p.prio = 15;
            p.max_ops = 14;
            p.parked = 70;
            p.modes = [8, 2, 2, 20, 30, 8, 2, 10, 30, 0, 2];
            p.w_abort = 0;
            p.s_panic = 0;
        }
        "C07" => {
            p.prio = 85;
            p.w_bcast = 40;
            p.max_ops = 14;
            p.parked = 60;
            p.modes = [8, 2, 2, 20, 30, 8, 2, 10, 30, 0, 2];
        }
        "C08" | "C09" | "C11" => {
            p.caps = vec![(1, Some(0)), (5, Some(1)), (4, Some(2)), (2, Some(3)), (1, None)];
            if prop == "C11" {
                p.w_bcast = 80;
                p.w_mb = 12;
                p.max_mbs = 4;
            }
            p.modes = [8, 8, 10, 15, 20, 8, 8, 10, 25, 1, 4];
        }
        "C10" => {
            p.w_bcast = 70;
            p.max_mbs = 4;
            p.w_mb = 12;
            p.s_sib = 5;
        }
        "C12" => {
            p.bad_start = 15;
            p.start_nest = 15;
            p.s_nest = 15;
            p.s_stop = 8;
            p.yield_once = 25;
            p.w_abort = 5;
        }
        "C27" => {
            p.bad_start = 8;
            p.yield_once = 0;
            p.custom = 5;
            p.select_top = 0;
            p.start_nest = 5;
            p.s_stop = 4;
            p.w_mb = 10;
            p.w_abort = 3;
            p.keep_strong = 30;
        }
        "C13" => {
            p.start_nest = 20;
            p.s_stop = 25;
            p.script = 75;
            p.s_nest = 15;
        }
        "C14" => {
            p.start_nest = 10;
            p.s_stop_all = 20;
            p.script = 70;
            p.max_mbs = 4;
            p.prio = 50;
        }
        "C15" | "C16" | "C17" => {
            p.keep_strong = 10;
            p.w_up = 25;
            p.w_drop = 30;
            p.w_addr = 15;
            p.w_query = if prop == "C17" { 25 } else { 5 };
            p.w_join = if prop == "C17" { 25 } else { 5 };
            p.s_hold = if p.never { 0 } else { 8 };
            p.s_stop = 0;
        }
        "C18" => {
            p.extra = 45;
            p.keep_strong = 20;
            p.w_mb = 10;
            p.w_abort = 6;
            p.w_drop = 15;
        }
        "C19" => {
            p.s_panic = 20;
            p.w_abort = 10;
            p.custom = 60;
            p.script = 75;
            p.max_mbs = 3;
        }
        "C20" => {
            p.w_scoped = 50;
            p.w_drop = 20;
            p.keep_strong = 20;
            p.s_stop = 5;
        }
        "C21" => {
            p.start_nest = 20;
            p.s_nest = 45;
            p.script = 80;
            p.select_top = 25;
            p.s_stop = 6;
        }
        "C22" => {
            p.chans = 100;
            p.w_sink = 25;
            p.w_addr = 15;
            p.w_query = 10;
        }
        "C23" => {
            p.w_query = 40;
            p.w_bcast = 30;
        }
        "C25" => {
            p.chans = 40;
            p.keep_strong = 20;
            p.w_ident = 40;
            p.w_addr = 40;
            p.w_up = 15;
            p.w_drop = 20;
            p.w_mb = 8;
        }
        "C24" => {
            p.script = 70;
            p.s_send = 15;
            p.s_nest = 15;
        }
        _ => {}
    }
    p
}

struct Gen<'a> {
    r: &'a mut Rng,
    p: Prof,
    msgs: Vec<MsgSpec>,
    actors: Vec<ActorSpec>,
    gates: u32,
    op: u32,
}

const MAX_ACTORS: usize = 10;

impl Gen<'_> {
    fn inner(&mut self, never: bool) -> Inner {
        let w = [3, 4, 3, 3, if never && self.p.never { 2 } else { 0 }];
        match self.r.weighted(&w) {
            0 => Inner::Ready,
            1 => Inner::Yield(self.r.range(1, 4) as u32),
            2 => Inner::Sleep(self.r.range(1, 60)),
            3 => Inner::Gate(self.r.below(self.gates as u64) as u32),
            _ => Inner::Never,
        }
    }

    /// What select or join is given.
    fn inner_nest(&mut self, never: bool) -> Inner {
        if self.p.s_panic > 0 && self.r.pct(6) {
            Inner::Boom(self.r.below(3) as u32)
        } else {
            self.inner(never)
        }
    }

    fn prio(&mut self) -> Option<u32> {
        let pp = self.p.prio;
        if self.r.pct(pp) {
            Some(match self.r.below(6) {
                // Of every magnitude, such that no bit of a priority may get lost
                0 => ((1u64 << self.r.below(33)) - self.r.below(2)) as u32,
                _ => *self.r.pick(&[0, 1, 1, 2, 3, 5, u32::MAX]),
            })
        } else {
            None
        }
    }

    /// A new message; `level`: how deep in messages sent by handlers it is.
    fn msg(&mut self, kind: Kind, level: u32) -> MsgId {
        let id = self.msgs.len();
        self.msgs.push(MsgSpec {
            kind,
            prio: None,
            script: vec![],
            extra: ExtraSpec::None,
        });
        let prio = if kind == Kind::Unit { None } else { self.prio() };
        let mut script = vec![];
        let sp = self.p.script;
        if self.r.pct(sp) {
            for _ in 0..self.r.range(1, 3) {
                if let Some(a) = self.hact(kind, level) {
                    script.push(a);
                }
            }
        }
        let ep = self.p.extra;
        let extra = if self.r.pct(ep) && kind != Kind::Unit {
            let mut act = *self.r.pick(&[
                DropAct::None,
                DropAct::None,
                DropAct::Len,
                DropAct::Connected,
                DropAct::Upgrade,
                DropAct::Join,
                DropAct::Send(0),
            ]);
            if act == DropAct::Send(0) {
                act = if self.p.drop_send && level == 0 && kind == Kind::Uni && self.msgs.len() < self.p.max_msgs {
                    DropAct::Send(self.msg(Kind::Uni, 2))
                } else {
                    DropAct::Len
                };
            }
            if self.r.pct(60) && !self.p.never {
                ExtraSpec::Strong(act)
            } else {
                ExtraSpec::Weak(act)
            }
        } else {
            ExtraSpec::None
        };
        let s = &mut self.msgs[id];
        s.prio = prio;
        s.script = script;
        s.extra = extra;
        id as MsgId
    }

    fn hact(&mut self, kind: Kind, level: u32) -> Option<HAct> {
        let p = &self.p;
        let once = kind != Kind::Bc && level == 0;
        let w = [
            p.s_wait,
            p.s_stop,
            p.s_stop_all,
            p.s_panic,
            if once { p.s_send } else { 0 },
            p.s_nest,
            p.s_hold,
            if once { p.s_sib } else { 0 },
            3,
        ];
        Some(match self.r.weighted(&w) {
            0 => match self.r.below(3) {
                0 => HAct::Yield(self.r.range(1, 4) as u32),
                1 => HAct::Sleep(self.r.range(1, 60)),
                _ => HAct::Gate(self.r.below(self.gates as u64) as u32),
            },
            1 => HAct::StopSelf,
            2 => HAct::StopAll,
            3 => HAct::Panic,
            4 => {
                if self.r.pct(65) {
                    HAct::SelfSend(self.msg(Kind::Uni, level + 1))
                } else {
                    HAct::SelfBcast(self.msg(Kind::Bc, level + 1))
                }
            }
            5 => {
                if self.r.pct(60) {
                    HAct::Select(self.inner_nest(true))
                } else {
                    HAct::Join(self.inner_nest(false))
                }
            }
            6 => HAct::Hold,
            7 => {
                if self.actors.len() >= MAX_ACTORS {
                    return None;
                }
                HAct::SpawnSibling(self.actor())
            }
            _ => HAct::Query,
        })
    }

    fn actor(&mut self) -> ActorId {
        let p = self.p.clone();
        let run = 100u32.saturating_sub(p.custom + p.yield_once + p.select_top);
        let kind = match self.r.weighted(&[run, p.yield_once, p.custom, p.select_top]) {
            0 => LoopKind::Run,
            1 => LoopKind::YieldOnce,
            2 => {
                let n = self.r.range(1, 6);
                let mut v = vec![];
                for _ in 0..n {
                    let i = self.inner(false);
                    let rp = match self.r.weighted(&[4, 2, 6, 3, 3]) {
                        0 => RecvPlan::Await,
                        1 => RecvPlan::Unpolled,
                        2 if self.r.pct(25) => RecvPlan::HoldDrop(Inner::Boom(self.r.below(3) as u32)),
                        2 => RecvPlan::HoldDrop(i),
                        3 => RecvPlan::HoldFinal(i),
                        _ => RecvPlan::Two,
                    };
                    let dp = match self.r.weighted(&[8, 2, 2, if p.drop_msg { 1 } else { 0 }]) {
                        0 if self.r.pct(30) => DispPlan::Catch,
                        0 => DispPlan::Await,
                        1 => DispPlan::Cancel(self.r.below(3) as u32),
                        2 => DispPlan::Timeout(self.r.range(1, 40)),
                        _ => DispPlan::DropMsg,
                    };
                    v.push((rp, dp));
                }
                LoopKind::Custom(v)
            }
            _ => LoopKind::SelectTop(self.inner_nest(true)),
        };
        let start = if self.r.pct(15) {
            Some(self.inner(false))
        } else {
            None
        };
        let stop = if self.r.pct(15) {
            Some(self.inner(false))
        } else {
            None
        };
        let start_ok = !self.r.pct(p.bad_start);
        let start_panic = start_ok && self.r.pct(p.bad_start / 3);
        let start_nest = if kind == LoopKind::Run && self.r.pct(p.start_nest) {
            Some((self.r.pct(30), self.inner_nest(true)))
        } else {
            None
        };
        self.actors.push(ActorSpec {
            kind,
            start,
            start_ok,
            stop,
            start_panic,
            start_nest,
        });
        self.actors.len() as ActorId - 1
    }

    fn send_mode(&mut self) -> SendMode {
        let w = self.p.modes;
        match self.r.weighted(&w) {
            0 => SendMode::Await,
            1 => SendMode::Timeout(self.r.range(1, 50)),
            2 => SendMode::PollDrop(self.r.below(3) as u32),
            3 => SendMode::DetAwait,
            4 => SendMode::DetDrop,
            5 => SendMode::DetHold,
            6 => SendMode::DetTimeout(self.r.range(1, 50)),
            7 => SendMode::Spawn,
            8 => SendMode::SpawnDet,
            9 => SendMode::Unpolled,
            _ => SendMode::Hold,
        }
    }

    fn wait_mode(&mut self) -> WaitMode {
        match self.r.weighted(&[6, 3, 1]) {
            0 => WaitMode::Spawn,
            1 => WaitMode::Timeout(self.r.range(1, 60)),
            _ => WaitMode::Unpolled,
        }
    }

    fn op(&mut self) -> Vec<Op> {
        let p = self.p.clone();
        let slot = self.r.below(8) as u32;
        let w = [
            p.w_send, p.w_bcast, p.w_addr, p.w_up, p.w_drop, p.w_query, p.w_join, p.w_scoped, p.w_sink,
            p.w_mb, p.w_abort, p.w_time, p.w_ident,
        ];
        let mut ks = vec![];
        match self.r.weighted(&w) {
            0 => {
                let burst = if self.r.pct(p.burst) { self.r.range(2, 6) } else { 1 };
                for _ in 0..burst {
                    let kind = if self.r.pct(6) { Kind::Unit } else { Kind::Uni };
                    let m = self.msg(kind, 0);
                    let mode = self.send_mode();
                    ks.push(OpKind::Send { slot, m, mode });
                }
            }
            1 => {
                let burst = if self.r.pct(p.burst) { self.r.range(2, 4) } else { 1 };
                for _ in 0..burst {
                    let m = self.msg(Kind::Bc, 0);
                    let mode = self.send_mode();
                    ks.push(OpKind::Bcast { slot, m, mode });
                }
            }
            2 => ks.push(match self.r.below(4) {
                0 => OpKind::Clone { slot },
                1 => OpKind::Down { slot },
                2 => OpKind::Either { slot },
                _ => OpKind::Chan { slot },
            }),
            3 => ks.push(OpKind::Up { slot }),
            4 => ks.push(OpKind::Drop { slot }),
            5 => ks.push(OpKind::Query { slot }),
            12 => ks.push(OpKind::Ident),
            6 => {
                let mode = self.wait_mode();
                ks.push(OpKind::Join { slot, mode })
            }
            7 => {
                let inner = self.inner(true);
                let mode = self.wait_mode();
                ks.push(OpKind::Scoped { slot, inner, mode })
            }
            8 => {
                let n = self.r.range(1, 3);
                let ms = (0..n).map(|_| self.msg(Kind::Unit, 0)).collect();
                ks.push(OpKind::Sink { slot, ms })
            }
            9 => {
                let mb = self.r.below(6) as u32;
                ks.push(match self.r.weighted(&[3, 3, 4]) {
                    0 => OpKind::CloneMb { mb },
                    1 => OpKind::DropMb { mb },
                    _ if self.actors.len() < MAX_ACTORS => OpKind::Start {
                        mb,
                        actor: self.actor(),
                    },
                    _ => OpKind::DropMb { mb },
                })
            }
            10 => {
                let actor = self.r.below(self.actors.len().max(1) as u64) as u32;
                ks.push(OpKind::Abort { actor })
            }
            _ => ks.push(match self.r.below(3) {
                0 => OpKind::Sleep(self.r.range(1, 60)),
                1 => OpKind::Yield(self.r.range(1, 4) as u32),
                _ => OpKind::OpenGate(self.r.below(self.gates as u64) as u32),
            }),
        }
        ks.into_iter()
            .map(|k| {
                self.op += 1;
                Op { id: self.op, k }
            })
            .collect()
    }
}

/// The size of a program, and how it is scheduled.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    Usual,
    /// A few operations of a few clients, scheduled densely: for races that need a preemption at
    /// particular points.
    Duel,
    /// Hundreds of messages: for queues, sequence numbers and counters of some size.
    Soak,
}

fn shape(r: &mut Rng, p: &mut Prof) -> Shape {
    let s = *match r.weighted(&[230, 90, 1]) {
        0 => &Shape::Usual,
        1 => &Shape::Duel,
        _ => &Shape::Soak,
    };
    match s {
        Shape::Usual => {}
        Shape::Duel => {
            p.max_mbs = p.max_mbs.min(2);
            p.max_clients = 3;
            p.max_ops = 2;
            p.script = p.script.min(30);
            p.burst = 4;
            p.parked = p.parked.min(20);
            p.modes[1] = 2;
            p.modes[6] = 2;
            p.w_time = 1;
            if r.pct(50) {
                // Nothing but what the property's workload is about.
                for w in [
                    &mut p.w_send, &mut p.w_bcast, &mut p.w_addr, &mut p.w_up, &mut p.w_drop, &mut p.w_query,
                    &mut p.w_join, &mut p.w_scoped, &mut p.w_sink, &mut p.w_mb, &mut p.w_abort,
                ] {
                    if r.pct(40) {
                        *w = 1;
                    }
                }
            }
        }
        Shape::Soak => {
            p.max_clients = 2;
            p.max_ops = 500;
            p.max_msgs = 700;
            p.script = p.script.min(5);
            p.custom = p.custom.min(10);
            p.w_abort = 0;
            p.w_mb = p.w_mb.min(1);
            p.w_drop = p.w_drop.min(1);
            p.w_time = p.w_time.min(1);
            p.s_stop = 0;
            p.s_stop_all = 0;
            p.s_panic = 0;
            p.extra = p.extra.min(3);
            p.keep_strong = 100;
            p.caps = vec![(3, None), (2, Some(1)), (1, Some(2)), (1, Some(40)), (2, Some(150))];
            if r.pct(60) {
                p.parked = 100;
            }
        }
    }
    s
}

pub fn strategy(r: &mut Rng, shape: Shape) -> Strategy {
    match shape {
        Shape::Usual => {}
        Shape::Duel => {
            return match r.weighted(&[6, 5, 5]) {
                0 => Strategy::Walk {
                    num: *r.pick(&[60, 150, 300, 500]),
                },
                1 => Strategy::Pct {
                    k: r.range(1, 6) as u32,
                    horizon: *r.pick(&[40, 100, 250, 600]),
                },
                _ => Strategy::Few {
                    k: r.range(1, 5) as u32,
                    horizon: *r.pick(&[40, 100, 250, 600]),
                },
            }
        }
        Shape::Soak => {
            return match r.below(3) {
                0 => Strategy::RunToBlock,
                1 => Strategy::Few { k: 5, horizon: 20000 },
                _ => Strategy::Walk { num: 20 },
            }
        }
    }
    match r.weighted(&[10, 6, 6, 1]) {
        0 => Strategy::Walk {
            num: *r.pick(&[20, 60, 150, 400]),
        },
        1 => Strategy::Pct {
            k: r.range(1, 8) as u32,
            horizon: *r.pick(&[300, 1500, 4000]),
        },
        2 => Strategy::Few {
            k: r.range(1, 6) as u32,
            horizon: *r.pick(&[200, 800, 2500]),
        },
        _ => Strategy::RunToBlock,
    }
}

pub fn generate(prop: &str, seed: u64) -> Prog {
    let mut r = Rng::new(seed);
    let mut p = profile(prop, &mut r);
    let shape = shape(&mut r, &mut p);
    let ws: Vec<u32> = p.caps.iter().map(|c| c.0).collect();
    let cap = p.caps[r.weighted(&ws)].1;
    let mbs = r.range(1, p.max_mbs as u64) as u32;
    let gates = r.range(1, 3) as u32;
    let mut g = Gen {
        r: &mut r,
        p: p.clone(),
        msgs: vec![],
        actors: vec![],
        gates,
        op: 0,
    };
    let mut start_now = vec![];
    for _ in 0..mbs {
        if !g.r.pct(p.parked) {
            start_now.push(g.actor());
        }
    }
    let nc = g.r.range(1, p.max_clients as u64);
    let mut clients = vec![];
    for _ in 0..nc {
        let ns = g.r.range(1, 2);
        let slots = (0..ns)
            .map(|_| {
                let weak = g.r.pct(p.weak);
                let ch = g.r.pct(p.chans);
                let ei = g.r.pct(20);
                match (ch, ei, weak) {
                    (true, true, _) => SlotInit::ChanEither,
                    (true, false, false) => SlotInit::Chan,
                    (true, false, true) => SlotInit::ChanWeak,
                    (false, true, true) => SlotInit::EitherWeak,
                    (false, true, false) => SlotInit::Either,
                    (false, false, true) => SlotInit::Weak,
                    (false, false, false) => SlotInit::Strong,
                }
            })
            .collect();
        let n = match shape {
            Shape::Soak => g.r.range(p.max_ops as u64 / 2, p.max_ops as u64),
            _ => g.r.range(1, p.max_ops as u64),
        };
        let mut ops = vec![];
        for _ in 0..n {
            if g.msgs.len() > p.max_msgs {
                break;
            }
            ops.extend(g.op());
        }
        clients.push(Client { slots, ops });
    }
    let (msgs, actors) = (g.msgs, g.actors);
    Prog {
        cap,
        mbs,
        start_now,
        clients,
        msgs,
        actors,
        gates,
        keep_strong: r.pct(p.keep_strong),
        park_run: r.pct(70),
        strategy: strategy(&mut r, shape),
        spurious: *r.pick(&[0, 0, 30, 120]),
        timer_num: *r.pick(&[0, 5, 30, 100]),
        cas_num: *r.pick(&[0, 0, 100]),
        fault_budget: 400,
        span_level: r.below(2) as u32,
        via: if prop == "C27" { Via::Helper(mix(seed)) } else { Via::Hand },
    }
}

/// Things that minimisation can leave out: client operations, and script steps of messages.
pub fn units(p: &Prog) -> Vec<u32> {
    let mut v: Vec<u32> = p
        .clients
        .iter()
        .flat_map(|c| c.ops.iter().map(|o| o.id))
        .collect();
    for (m, s) in p.msgs.iter().enumerate() {
        for i in 0..s.script.len() {
            v.push(100_000 + m as u32 * 16 + i as u32);
        }
        if s.extra != ExtraSpec::None {
            v.push(200_000 + m as u32);
        }
    }
    for (a, s) in p.actors.iter().enumerate() {
        if let LoopKind::Custom(plan) = &s.kind {
            for i in 0..plan.len() {
                v.push(300_000 + a as u32 * 16 + i as u32);
            }
        }
    }
    v
}

/// The program without the given units.
pub fn without(p: &Prog, drop: &[u32]) -> Prog {
    let mut q = p.clone();
    if drop.is_empty() {
        return q;
    }
    for c in q.clients.iter_mut() {
        c.ops.retain(|o| !drop.contains(&o.id));
    }
    q.clients.retain(|c| !c.ops.is_empty());
    for (m, s) in q.msgs.iter_mut().enumerate() {
        let mut i = 0;
        s.script.retain(|_| {
            i += 1;
            !drop.contains(&(100_000 + m as u32 * 16 + i - 1))
        });
        if drop.contains(&(200_000 + m as u32)) {
            s.extra = ExtraSpec::None;
        }
    }
    for (a, s) in q.actors.iter_mut().enumerate() {
        if let LoopKind::Custom(plan) = &mut s.kind {
            let mut i = 0;
            plan.retain(|_| {
                i += 1;
                !drop.contains(&(300_000 + a as u32 * 16 + i - 1))
            });
        }
    }
    q
}
