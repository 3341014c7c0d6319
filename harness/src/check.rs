//! Rules over the recorded history of a run. Each violation names the properties it breaks.

use std::collections::BTreeMap;

use crate::act::*;
use crate::exec::RunOut;
use crate::prog::Prog;
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<String>,
    pub rule: &'static str,
    pub msg: String,
}

pub const ALL: &str = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C28,C29";

fn props(s: &str) -> Vec<String> {
    s.split(',').map(|x| x.to_string()).collect()
}

/// Violations raised while the run was going on.
pub fn from_failure(class: &str, msg: &str) -> Violation {
    let tags = if class.starts_with('C') { class } else { ALL };
    Violation {
        props: props(tags),
        rule: "during-run",
        msg: format!("{}: {}", class, msg),
    }
}

#[derive(Default, Clone)]
struct MsgI {
    op: Option<OpId>,
    hs: Vec<(usize, ActorId)>,
    he: Vec<(usize, ActorId, Option<How>, u64)>,
    drops: Vec<(usize, u32)>,
    clones: u32,
    created: Option<usize>,
}

#[derive(Clone)]
struct OpI {
    role: Role,
    m: MsgId,
    new: usize,
    pb: Vec<usize>,
    woken: Vec<usize>,
    pe: Vec<(usize, Out)>,
    db: Option<usize>,
    de: Option<usize>,
    /// When the call that created it began (joins).
    born: usize,
    inner: u32,
    never: bool,
}

impl OpI {
    fn fpb(&self) -> Option<usize> {
        self.pb.first().copied()
    }
    fn done(&self) -> Option<&(usize, Out)> {
        self.pe.iter().find(|x| x.1 != Out::Pending)
    }
}

#[derive(Clone, Default)]
struct ActI {
    mb: Option<MbId>,
    launched: usize,
    start: Vec<usize>,
    started: Option<(usize, bool)>,
    stop: Vec<usize>,
    stop_end: Option<usize>,
    end: Option<(usize, Option<How>, u64)>,
    gone: Option<usize>,
    panicking: Option<usize>,
    abort: Option<usize>,
    stop_self: Vec<(usize, MsgId)>,
    msg_drops: Vec<(usize, usize)>,
    recv_new: Vec<usize>,
    recv_drop: Vec<usize>,
}

#[derive(Clone, Default)]
struct Grp {
    add_b: usize,
    add_e: Option<usize>,
    del_b: Option<usize>,
    del_e: Option<usize>,
    actor: Option<ActorId>,
}

pub struct Hist<'a> {
    log: &'a [Ev],
    n: usize,
    prog: &'a Prog,
    msgs: BTreeMap<MsgId, MsgI>,
    ops: BTreeMap<OpId, OpI>,
    acts: BTreeMap<ActorId, ActI>,
    grps: BTreeMap<MbId, Grp>,
    s_lo: Vec<i32>,
    s_hi: Vec<i32>,
    m_lo: Vec<i32>,
    m_hi: Vec<i32>,
    stop_all: Vec<(usize, usize, ActorId)>,
    phase: [usize; 7],
    pub out: Vec<Violation>,
}

const INF: usize = usize::MAX;

impl<'a> Hist<'a> {
    fn bad(&mut self, rule: &'static str, tags: &str, msg: String) {
        if self.out.len() < 40 {
            self.out.push(Violation {
                props: props(tags),
                rule,
                msg,
            });
        }
    }

    fn spec(&self, m: MsgId) -> MsgSpec {
        if (m as usize) < self.prog.msgs.len() {
            self.prog.msgs[m as usize].clone()
        } else {
            MsgSpec {
                kind: Kind::Uni,
                prio: None,
                script: vec![],
                extra: ExtraSpec::None,
            }
        }
    }

    fn prio(&self, m: MsgId) -> u32 {
        self.spec(m).prio.unwrap_or(0)
    }

    fn is_bc(&self, m: MsgId) -> bool {
        self.spec(m).kind == Kind::Bc
    }

    fn zero(v: &[i32], a: usize, b: usize) -> bool {
        v[a..=b.min(v.len() - 1)].iter().any(|x| *x <= 0)
    }
    fn some(v: &[i32], a: usize, b: usize) -> bool {
        v[a..=b.min(v.len() - 1)].iter().any(|x| *x > 0)
    }

    /// Position at which a message was certainly accepted.
    fn acc(&self, m: MsgId) -> Option<usize> {
        let i = self.msgs.get(&m)?;
        let o = &self.ops[&i.op?];
        let q = o.pe.iter().find(|x| x.1 == Out::Queued).map(|x| x.0);
        let h = i.hs.first().map(|x| x.0);
        match (q, h) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        }
    }

    fn queued(&self, m: MsgId) -> Option<usize> {
        let i = self.msgs.get(&m)?;
        let o = &self.ops[&i.op?];
        o.pe.iter().find(|x| x.1 == Out::Queued).map(|x| x.0)
    }

    fn fpb(&self, m: MsgId) -> Option<usize> {
        self.ops[&self.msgs.get(&m)?.op?].fpb()
    }

    fn custom(&self, a: ActorId) -> bool {
        self.prog
            .actors
            .get(a as usize)
            .map_or(false, |s| matches!(s.kind, LoopKind::Custom(_)))
    }
}

pub fn history<'a>(prog: &'a Prog, log: &'a [Ev]) -> Hist<'a> {
    let n = log.len();
    let mut h = Hist {
        log,
        n,
        prog,
        msgs: BTreeMap::new(),
        ops: BTreeMap::new(),
        acts: BTreeMap::new(),
        grps: BTreeMap::new(),
        s_lo: vec![0; n + 1],
        s_hi: vec![0; n + 1],
        m_lo: vec![0; n + 1],
        m_hi: vec![0; n + 1],
        stop_all: vec![],
        phase: [INF; 7],
        out: vec![],
    };
    // Which upgrades succeeded.
    let mut up = BTreeMap::new();
    for e in log {
        if let Ev::UpE { q, some } = e {
            up.insert(*q, *some);
        }
    }
    let mut unpolled: BTreeMap<OpId, bool> = BTreeMap::new();
    let (mut slo, mut shi, mut mlo, mut mhi) = (0, 0, 0, 0);
    let mut dead: BTreeMap<MbId, bool> = BTreeMap::new();
    let mut pend_stop_all: BTreeMap<ActorId, usize> = BTreeMap::new();
    let mut pend_drop: BTreeMap<ActorId, usize> = BTreeMap::new();
    let mut born: BTreeMap<u64, usize> = BTreeMap::new();
    macro_rules! begin_del {
        ($a:expr) => {{
            if let Some(mb) = h.acts.get(&$a).and_then(|x| x.mb) {
                if dead.insert(mb, true).is_none() {
                    mlo -= 1;
                }
            }
        }};
    }
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::OpNew {
                op,
                strong,
                role,
                m,
            } => {
                h.ops.insert(
                    *op,
                    OpI {
                        role: *role,
                        m: *m,
                        new: i,
                        woken: vec![],
                        pb: vec![],
                        pe: vec![],
                        db: None,
                        de: None,
                        born: i,
                        inner: 0,
                        never: false,
                    },
                );
                if *strong {
                    shi += 1;
                    unpolled.insert(*op, true);
                }
                if *m != NO_MSG && *role != Role::Res {
                    let x = h.msgs.entry(*m).or_default();
                    x.op = Some(*op);
                    x.created = Some(i);
                }
            }
            Ev::Woken { op } => h.ops.get_mut(op).unwrap().woken.push(i),
            Ev::PollB { op } => h.ops.get_mut(op).unwrap().pb.push(i),
            Ev::PollE { op, out } => {
                h.ops.get_mut(op).unwrap().pe.push((i, out.clone()));
                if unpolled.remove(op).is_some() {
                    shi -= 1;
                }
            }
            Ev::DropB { op } => h.ops.get_mut(op).unwrap().db = Some(i),
            Ev::DropE { op } => {
                h.ops.get_mut(op).unwrap().de = Some(i);
                if unpolled.remove(op).is_some() {
                    shi -= 1;
                }
            }
            Ev::HStart { m, actor, .. } => {
                let x = h.msgs.entry(*m).or_default();
                x.hs.push((i, *actor));
            }
            Ev::HEnd { m, actor, how, ret } => {
                h.msgs
                    .entry(*m)
                    .or_default()
                    .he
                    .push((i, *actor, Some(*how), *ret));
            }
            Ev::PayClone { m, .. } => h.msgs.entry(*m).or_default().clones += 1,
            Ev::PayDrop { m, copy } => h.msgs.entry(*m).or_default().drops.push((i, *copy)),
            Ev::Note { s, a, b } if *s == "actor on mailbox" => {
                let x = h.acts.entry(*a as u32).or_default();
                x.mb = Some(*b as u32);
                x.launched = i;
                h.grps.entry(*b as u32).or_default().actor = Some(*a as u32);
            }
            Ev::Note { s, a, .. } if *s == "join created" => {
                born.insert(*a, i);
            }
            Ev::Note { s, a, b } if *s == "join" || *s == "scoped" => {
                let o = h.ops.get_mut(&(*a as u32)).unwrap();
                o.born = born[&(*b / 2)];
                o.inner = (*b / 2) as u32;
                o.never = *b % 2 == 1;
            }
            Ev::ActStart { actor, .. } => h.acts.entry(*actor).or_default().start.push(i),
            Ev::ActStarted { actor, ok } => {
                h.acts.entry(*actor).or_default().started = Some((i, *ok));
                if !*ok {
                    begin_del!(*actor);
                }
            }
            Ev::StopCb { actor } => {
                h.acts.entry(*actor).or_default().stop.push(i);
                begin_del!(*actor);
            }
            Ev::StopCbEnd { actor } => h.acts.entry(*actor).or_default().stop_end = Some(i),
            Ev::RunEnd { actor, how, ret } => {
                h.acts.entry(*actor).or_default().end = Some((i, Some(*how), *ret));
                begin_del!(*actor);
            }
            Ev::Panicking { actor } => {
                h.acts.entry(*actor).or_default().panicking = Some(i);
                begin_del!(*actor);
            }
            Ev::ActGone { actor } => {
                let x = h.acts.entry(*actor).or_default();
                x.gone = Some(i);
                if let Some(mb) = x.mb {
                    let g = h.grps.entry(mb).or_default();
                    g.del_e = Some(i);
                }
                mhi -= 1;
            }
            Ev::Abort { actor } => h.acts.entry(*actor).or_default().abort = Some(i),
            Ev::StopSelf { actor, m } => h.acts.entry(*actor).or_default().stop_self.push((i, *m)),
            Ev::StopAllB { actor } => {
                pend_stop_all.insert(*actor, i);
            }
            Ev::StopAllE { actor } => {
                let b = pend_stop_all.remove(actor).unwrap_or(i);
                h.stop_all.push((b, i, *actor));
            }
            Ev::AddB { strong: true } => shi += 1,
            Ev::AddE { strong: true, ok } => {
                if *ok {
                    slo += 1
                } else {
                    shi -= 1
                }
            }
            Ev::DelB { strong: true } => slo -= 1,
            Ev::DelE { strong: true } => shi -= 1,
            Ev::UpB { q } => {
                if up.get(q) == Some(&true) {
                    shi += 1
                }
            }
            Ev::UpE { some: true, .. } => slo += 1,
            Ev::MbAddB { mb } => {
                h.grps.entry(*mb).or_default().add_b = i;
                mhi += 1;
            }
            Ev::MbAddE { mb } => {
                h.grps.entry(*mb).or_default().add_e = Some(i);
                mlo += 1;
            }
            Ev::MbDelB { mb } => {
                h.grps.entry(*mb).or_default().del_b = Some(i);
                if dead.insert(*mb, true).is_none() {
                    mlo -= 1;
                }
            }
            Ev::MbDelE { mb } => {
                h.grps.entry(*mb).or_default().del_e = Some(i);
                mhi -= 1;
            }
            Ev::RecvNew { actor } => h.acts.entry(*actor).or_default().recv_new.push(i),
            Ev::RecvDropE { actor } => h.acts.entry(*actor).or_default().recv_drop.push(i),
            Ev::MsgDropB { actor } => {
                pend_drop.insert(*actor, i);
            }
            Ev::MsgDropE { actor } => {
                let b = pend_drop.remove(actor).unwrap_or(i);
                h.acts.entry(*actor).or_default().msg_drops.push((b, i));
            }
            Ev::Phase { n } => h.phase[*n as usize] = i,
            _ => {}
        }
        h.s_lo[i] = slo;
        h.s_hi[i] = shi;
        h.m_lo[i] = mlo;
        h.m_hi[i] = mhi;
    }
    // Zero strong addresses is for good: up to the last successful upgrade there was always one.
    if let Some(last) = log.iter().rposition(|e| matches!(e, Ev::UpE { some: true, .. })) {
        for x in h.s_lo[..=last].iter_mut() {
            *x = (*x).max(1);
        }
    }
    for (a, b) in pend_drop {
        h.acts.entry(a).or_default().msg_drops.push((b, n));
    }
    for (a, b) in pend_stop_all {
        h.stop_all.push((b, INF, a));
    }
    let l = n.max(1) - 1;
    h.s_lo[n] = h.s_lo[l];
    h.s_hi[n] = h.s_hi[l];
    h.m_lo[n] = h.m_lo[l];
    h.m_hi[n] = h.m_hi[l];
    h
}

/// Check a concurrent run.
pub fn check(prog: &Prog, r: &RunOut) -> Vec<Violation> {
    let mut h = history(prog, &r.log);
    if let Some((c, m)) = &r.rep.failure {
        h.out.push(from_failure(c, m));
        // The history is cut short: only what cannot be undone later is still checked.
        h.at_most_once();
        h.results();
        h.loss();
        return h.out;
    }
    h.at_most_once();
    h.results();
    h.loss();
    h.broadcast_reach();
    h.lifecycle();
    h.stop_self();
    h.stop_all();
    h.no_stop_without_cause();
    h.connection();
    h.bounds();
    h.fifo();
    h.overtaken();
    h.priority();
    h.nested();
    h.scoped();
    h.lens();
    h.spans();
    if h.phase[6] != INF {
        h.quiescence();
    }
    if !r.rep.stuck.is_empty() {
        let (name, _) = &r.rep.stuck[0];
        let tags = if name.starts_with("actor") {
            "C04,C12,C13,C14,C15,C16,C18,C19,C21"
        } else {
            "C04,C17,C18,C19,C20,C22"
        };
        h.bad("stuck", tags, format!("{} never finished although every strong address is gone", name));
    }
    h.out
}

impl Hist<'_> {
    fn at_most_once(&mut self) {
        for (m, i) in self.msgs.clone() {
            if self.is_bc(m) {
                let mut seen: BTreeMap<MbId, usize> = BTreeMap::new();
                for (p, a) in &i.hs {
                    let g = self.acts[a].mb.unwrap_or(0);
                    if seen.insert(g, *p).is_some() {
                        self.bad(
                            "at-most-once",
                            "C01,C10,C05,C11",
                            format!("broadcast {} handled twice by mailbox {}", m, g),
                        );
                    }
                }
            } else if i.hs.len() > 1 {
                self.bad(
                    "at-most-once",
                    "C01,C02,C05,C22",
                    format!("message {} handled {} times", m, i.hs.len()),
                );
            }
        }
    }

    fn results(&mut self) {
        for (op, o) in self.ops.clone() {
            if o.m == NO_MSG {
                continue;
            }
            let Some((pos, out)) = o.done() else { continue };
            let Some(mi) = self.msgs.get(&o.m).cloned() else { continue };
            match out {
                Out::Val(v) => {
                    let ok = mi.he.iter().any(|(p, a, how, ret)| {
                        p < pos
                            && *how == Some(How::Normal)
                            && (*ret == *v || (*v == UNIT_RET && *ret == ret_of(o.m, *a)))
                    });
                    if !ok {
                        self.bad(
                            "result",
                            "C03,C19,C22,C01",
                            format!("op {}: message {} reported result {} which its handler did not return", op, o.m, v),
                        );
                    }
                }
                Out::Disconnected => {
                    if let Some((p, a)) = mi.hs.first() {
                        self.bad(
                            "result",
                            "C03,C02,C17,C22,C09",
                            format!("op {}: message {} reported as disconnected but handled by actor {} (event {})", op, o.m, a, p),
                        );
                    }
                }
                Out::Interrupted => {
                    if mi.he.iter().any(|x| x.2 == Some(How::Normal)) {
                        self.bad(
                            "result",
                            "C03,C19,C13,C22",
                            format!("op {}: message {} reported as interrupted but its handler completed", op, o.m),
                        );
                    }
                }
                _ => {}
            }
        }
    }

    /// A unicast message destroyed without having been handled.
    fn loss(&mut self) {
        for (m, i) in self.msgs.clone() {
            if self.is_bc(m) || i.created.is_none() {
                continue;
            }
            let Some((d, _)) = i.drops.first() else { continue };
            let d = *d;
            if i.hs.first().map_or(false, |x| x.0 < d) {
                continue;
            }
            let o = &self.ops[&i.op.unwrap()];
            let queued = o.pe.iter().any(|x| x.0 < d && x.1 == Out::Queued);
            let in_own_drop = o.db.map_or(false, |b| b < d) && o.de.map_or(true, |e| d < e) && !queued;
            let own_poll = o.pb.iter().filter(|b| **b < d).count();
            let in_own_poll = own_poll > o.pe.iter().filter(|e| e.0 < d).count();
            let poll_disc = in_own_poll
                && o.pe
                    .get(own_poll - 1)
                    .map_or(true, |e| e.1 == Out::Disconnected);
            let all_gone = self.m_lo[d] <= 0;
            let manual = self
                .acts
                .values()
                .any(|a| a.msg_drops.iter().any(|(b, e)| *b < d && d < *e));
            // A sink drops its item when the send fails.
            let sink = o.role == Role::Sink && o.pe.last().map_or(false, |e| e.1 == Out::Disconnected);
            if !(in_own_drop || poll_disc || all_gone || manual || sink) {
                self.bad(
                    "loss",
                    "C02,C03,C04,C05,C13,C14,C16,C18,C19,C21,C22",
                    format!("message {} was destroyed unhandled (event {}) although a mailbox still existed", m, d),
                );
            }
        }
    }

    fn broadcast_reach(&mut self) {
        for (m, i) in self.msgs.clone() {
            if !self.is_bc(m) || i.created.is_none() {
                continue;
            }
            let Some(acc) = self.acc(m) else { continue };
            let Some(fpb) = self.fpb(m) else { continue };
            for (g, grp) in self.grps.clone() {
                let handled = grp
                    .actor
                    .map_or(false, |a| i.hs.iter().any(|x| x.1 == a));
                if handled && grp.add_b > acc && self.queued(m).map_or(false, |q| q < grp.add_b) {
                    self.bad(
                        "broadcast-reach",
                        "C10",
                        format!("broadcast {} was handled by mailbox {} created after it was accepted", m, g),
                    );
                }
                if handled || grp.add_e.map_or(true, |e| e > fpb) || grp.del_b.is_some() {
                    continue;
                }
                let Some(a) = grp.actor else { continue };
                let ai = self.acts[&a].clone();
                let excused = ai.panicking.is_some()
                    || ai.abort.is_some()
                    || ai.started.map_or(true, |s| !s.1)
                    || !ai.stop_self.is_empty()
                    || !self.stop_all.is_empty()
                    || !ai.msg_drops.is_empty()
                    || ai.end.as_ref().map_or(true, |e| e.1 != Some(How::Normal))
                    || Self::zero(&self.s_lo, 0, acc)
                        && self.s_lo[..=acc].iter().rposition(|x| *x > 0).map_or(true, |p| p < acc && self.s_lo[acc] <= 0);
                if !excused {
                    self.bad(
                        "broadcast-reach",
                        "C10,C02,C05,C16,C11,C09,C21,C19",
                        format!("broadcast {} was accepted (event {}) but never handled by actor {} (mailbox {})", m, acc, a, g),
                    );
                }
            }
        }
    }

    fn lifecycle(&mut self) {
        let mut open: BTreeMap<ActorId, Vec<(MsgId, u32)>> = BTreeMap::new();
        let mut nest: BTreeMap<ActorId, u32> = BTreeMap::new();
        let mut bad = vec![];
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::HStart { m, actor, .. } => {
                    let v = open.entry(*actor).or_default();
                    let n = *nest.get(actor).unwrap_or(&0);
                    if let Some((pm, pn)) = v.last() {
                        if n <= *pn {
                            bad.push((
                                "C12,C21,C01",
                                format!("actor {} started handling {} while handling {} (event {})", actor, m, pm, p),
                            ));
                        }
                    }
                    v.push((*m, n));
                    let a = &self.acts[actor];
                    let starting = n > 0 && a.start.first().map_or(false, |s| *s < p) && a.started.map_or(true, |s| s.0 > p);
                    if !starting && a.started.map_or(true, |s| s.0 > p || !s.1) {
                        bad.push(("C12", format!("actor {} handled message {} without having started", actor, m)));
                    }
                    if a.stop.first().map_or(false, |s| *s < p) {
                        bad.push((
                            "C12,C13,C14",
                            format!("actor {} handled message {} after its stopped callback", actor, m),
                        ));
                    }
                }
                Ev::HEnd { m, actor, .. } => {
                    let v = open.entry(*actor).or_default();
                    match v.pop() {
                        Some((x, _)) if x == *m => {}
                        x => bad.push(("C12,C21", format!("handler of {} ended while {:?} was running", m, x))),
                    }
                    if let Some((_, n)) = v.last() {
                        let _ = n;
                    }
                }
                Ev::NestB { actor, .. } => *nest.entry(*actor).or_default() += 1,
                Ev::NestE { actor, .. } => *nest.entry(*actor).or_default() -= 1,
                Ev::DispDropE { actor } => {
                    // Whatever was nested in the cancelled handler is gone.
                    nest.insert(*actor, 0);
                    open.entry(*actor).or_default().clear();
                }
                Ev::StopCb { actor } => {
                    if !open.entry(*actor).or_default().is_empty() {
                        bad.push(("C12", format!("actor {} stopped while a handler was running", actor)));
                    }
                }
                _ => {}
            }
        }
        for (a, i) in self.acts.clone() {
            if i.start.len() > 1 {
                bad.push(("C12", format!("actor {} was started {} times", a, i.start.len())));
            }
            if i.stop.len() > 1 {
                bad.push(("C12", format!("stopped callback of actor {} ran {} times", a, i.stop.len())));
            }
            if let (Some((_, false)), true) = (i.started, !i.stop.is_empty()) {
                bad.push(("C12", format!("actor {} failed to start but was stopped", a)));
            }
            if let Some((_, Some(How::Normal), ret)) = i.end {
                match i.started {
                    Some((_, true)) => {
                        if i.stop_end.is_none() {
                            bad.push(("C12", format!("run of actor {} returned without its stopped callback", a)));
                        } else if ret != stop_val(a) && !cfg!(feature = "helpers") {
                            bad.push(("C12", format!("run of actor {} returned {} instead of its stop value", a, ret)));
                        }
                    }
                    Some((_, false)) => {
                        if ret != err_val(a) && !cfg!(feature = "helpers") {
                            bad.push(("C12", format!("run of actor {} returned {} instead of its failure value", a, ret)));
                        }
                    }
                    None => bad.push(("C12", format!("run of actor {} returned without starting", a))),
                }
            }
        }
        for (t, m) in bad {
            self.bad("lifecycle", t, m);
        }
    }

    /// Whether a stop request at event `from` may be lost: it was (or may have been) taken by select
    /// or join within a handler that was dropped or panicked, or by a select outside any handler
    /// that returned the output of its future.
    fn stop_lost(&self, a: ActorId, from: usize) -> bool {
        let nest_in = |s: usize, e: usize| {
            self.log[s..e]
                .iter()
                .any(|ev| matches!(ev, Ev::NestB { actor, .. } if *actor == a))
        };
        for i in self.msgs.values() {
            for he in i.he.iter().filter(|x| x.1 == a && x.0 > from && x.2 != Some(How::Normal)) {
                if let Some(s) = i.hs.iter().rev().find(|x| x.1 == a && x.0 < he.0) {
                    if nest_in(s.0, he.0) {
                        return true;
                    }
                }
            }
        }
        let top = self.prog.actors.get(a as usize);
        if top.map_or(false, |s| matches!(s.kind, LoopKind::SelectTop(_))) {
            let first = self.log.iter().find_map(|ev| match ev {
                Ev::NestB { actor, id, .. } if *actor == a => Some(*id),
                _ => None,
            });
            if let Some(f) = first {
                return self.log[from..]
                    .iter()
                    .any(|ev| matches!(ev, Ev::NestE { id, left: true, .. } if *id == f));
            }
        }
        false
    }

    fn stop_self(&mut self) {
        for (a, i) in self.acts.clone() {
            for (s, m) in &i.stop_self {
                let Some(e) = self.msgs[m]
                    .he
                    .iter()
                    .find(|x| x.1 == a && x.0 > *s)
                    .cloned()
                else {
                    continue;
                };
                if e.2 != Some(How::Normal) || self.stop_lost(a, *s) {
                    continue;
                }
                let later: Vec<MsgId> = self
                    .msgs
                    .iter()
                    .filter(|(_, x)| x.hs.iter().any(|y| y.1 == a && y.0 > e.0))
                    .map(|x| *x.0)
                    .collect();
                if let Some(l) = later.first() {
                    self.bad(
                        "stop-self",
                        "C13,C21",
                        format!("actor {} asked to stop while handling {} but later handled {}", a, m, l),
                    );
                }
                if self.phase[3] != INF && i.msg_drops.is_empty() && e.0 < self.phase[3] && i.gone.map_or(true, |g| g > self.phase[3]) {
                    self.bad(
                        "stop-self",
                        "C13,C21",
                        format!("actor {} asked to stop while handling {} but kept running", a, m),
                    );
                }
            }
        }
    }

    fn stop_all(&mut self) {
        for (b, e, by) in self.stop_all.clone() {
            if e == INF {
                continue;
            }
            for (g, grp) in self.grps.clone() {
                if grp.add_e.map_or(true, |x| x > b) || grp.del_b.map_or(false, |d| d < e) {
                    continue;
                }
                let Some(a) = grp.actor else { continue };
                let ai = self.acts[&a].clone();
                if ai.msg_drops.iter().any(|x| x.1 > b) || self.stop_lost(a, b) {
                    continue;
                }
                let mut hs: Vec<usize> = vec![];
                let mut he: Vec<usize> = vec![];
                for x in self.msgs.values() {
                    hs.extend(x.hs.iter().filter(|y| y.1 == a && y.0 > e).map(|y| y.0));
                    he.extend(x.he.iter().filter(|y| y.1 == a && y.0 > e).map(|y| y.0));
                }
                hs.sort();
                he.sort();
                let first_end = he.first().copied().unwrap_or(INF);
                if hs.len() > 1 || hs.iter().any(|p| *p > first_end) {
                    self.bad(
                        "stop-all",
                        "C14,C07",
                        format!("actor {} (mailbox {}) went on handling messages after stop_all by actor {} (event {})", a, g, by, e),
                    );
                }
                let ph3 = self.phase[3];
                if ph3 != INF && e < ph3 && ai.gone.map_or(true, |x| x > ph3) {
                    self.bad(
                        "stop-all",
                        "C14,C21",
                        format!("actor {} (mailbox {}) never stopped after stop_all by actor {} (event {})", a, g, by, e),
                    );
                }
            }
        }
    }

    fn no_stop_without_cause(&mut self) {
        for (a, i) in self.acts.clone() {
            let Some(sc) = i.stop.first().copied() else { continue };
            if i.stop_self.iter().any(|s| s.0 < sc) || self.stop_all.iter().any(|s| s.0 < sc) {
                continue;
            }
            if self.s_lo[..=sc].iter().skip(2).any(|x| *x <= 0) {
                continue;
            }
            self.bad(
                "stop-cause",
                "C15,C13,C14,C12,C16",
                format!("actor {} stopped although a strong address existed and nobody asked it to stop", a),
            );
        }
        // Handed back by select: only if the actor was told to stop.
        let mut none: Option<usize> = None;
        let mut bad = vec![];
        let mut begun: BTreeMap<u32, usize> = BTreeMap::new();
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::UpB { q } => {
                    begun.insert(*q, p);
                }
                Ev::UpE { q, some } => {
                    let b = begun[q];
                    if *some {
                        // Without the upgrade itself.
                        let ok = (b..=p).any(|k| self.s_hi[k] > 1 || (k == b && self.s_hi[k] > 1));
                        if !ok {
                            bad.push(format!("a weak address was upgraded (event {}) with no strong address left", p));
                        }
                        if none.map_or(false, |n| n < b) {
                            bad.push(format!("a weak address was upgraded (event {}) after an upgrade had failed", p));
                        }
                    } else {
                        if !Self::zero(&self.s_lo, b, p) {
                            bad.push(format!("an upgrade failed (event {}) although a strong address existed", p));
                        }
                        none = Some(none.map_or(p, |n| n.min(p)));
                    }
                }
                _ => {}
            }
        }
        for m in bad {
            self.bad("upgrade", "C15,C22", m);
        }
    }

    fn connection(&mut self) {
        // Evidence of disconnection: the first operation that reported it.
        let mut since = INF;
        let mut why = String::new();
        let mut bad: Vec<(&str, String)> = vec![];
        let mut begun: BTreeMap<u32, usize> = BTreeMap::new();
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::ConnE { res: false, .. } => {
                    if since == INF {
                        since = p;
                        why = format!("is_connected (event {})", p);
                    }
                }
                Ev::UpE { some: false, .. } => {
                    if since == INF {
                        since = p;
                        why = format!("failed upgrade (event {})", p);
                    }
                }
                Ev::PollE { op, out } => {
                    let o = &self.ops[op];
                    let disc = *out == Out::Disconnected
                        || o.role == Role::Join && *out == Out::Done
                        || o.role == Role::Scoped && *out == Out::Gone;
                    if disc && since == INF {
                        since = p;
                        why = format!("op {} (event {})", op, p);
                    }
                }
                _ => {}
            }
        }
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::ConnB { q } => {
                    begun.insert(*q, p);
                }
                Ev::ConnE { q, res } => {
                    let b = begun[q];
                    if *res {
                        if !Self::some(&self.s_hi, b, p) || !Self::some(&self.m_hi, b, p) {
                            bad.push(("C17,C15,C22", format!("is_connected was true (event {}) without a mailbox or strong address", p)));
                        }
                        if b > since {
                            bad.push(("C17,C22", format!("is_connected was true (event {}) after disconnection was reported by {}", p, why)));
                        }
                    } else if !Self::zero(&self.s_lo, b, p) && !Self::zero(&self.m_lo, b, p) {
                        bad.push(("C17,C15,C22", format!("is_connected was false (event {}) although a mailbox and a strong address existed", p)));
                    }
                }
                _ => {}
            }
        }
        for (op, o) in self.ops.clone() {
            let Some(fpb) = o.fpb() else { continue };
            let first = &o.pe.first();
            let Some(first) = first else { continue };
            match o.role {
                Role::Send | Role::Det | Role::Bc | Role::Sink => {
                    if o.role != Role::Sink {
                        if fpb > since && first.1 != Out::Disconnected {
                            bad.push(("C17,C22,C03", format!("op {} (message {}) did not fail at once (event {}) although disconnection had been reported by {}", op, o.m, first.0, why)));
                        }
                        if (self.s_hi[fpb] <= 0 || self.m_hi[fpb] <= 0) && first.1 != Out::Disconnected {
                            bad.push(("C17,C22,C03", format!("op {} (message {}) answered {:?} on a disconnected address", op, o.m, first.1)));
                        }
                    }
                    if let Some((p, Out::Disconnected)) = o.done() {
                        let at_first = o.pe.len() == 1;
                        let ok = if at_first {
                            Self::zero(&self.s_lo, fpb, *p) || Self::zero(&self.m_lo, fpb, *p)
                        } else {
                            Self::zero(&self.m_lo, fpb, *p)
                        };
                        if !ok {
                            bad.push(("C03,C04,C17,C22,C16", format!("op {} (message {}) reported disconnection (event {}) although the address was connected", op, o.m, p)));
                        }
                    }
                }
                Role::Join => {
                    if let Some((p, _)) = o.done() {
                        if self.s_lo[*p] > 0 && self.m_lo[*p] > 0 {
                            bad.push(("C17,C22", format!("join handle op {} completed (event {}) while connected", op, p)));
                        }
                    }
                    if (o.born > since || self.s_hi[o.born] <= 0 || self.m_hi[o.born] <= 0) && first.1 == Out::Pending {
                        bad.push(("C17,C22", format!("join handle op {} created after disconnection did not complete at once", op)));
                    }
                }
                Role::Scoped => {
                    if let Some((p, Out::Gone)) = o.done() {
                        if self.s_lo[*p] > 0 && self.m_lo[*p] > 0 {
                            bad.push(("C20", format!("scoped task op {} gave up (event {}) while connected", op, p)));
                        }
                    }
                    if (o.born > since || self.s_hi[o.born] <= 0 || self.m_hi[o.born] <= 0) && first.1 != Out::Gone {
                        bad.push(("C20,C17", format!("scoped task op {} created after disconnection answered {:?}", op, first.1)));
                    }
                }
                Role::Res | Role::Recv | Role::Disp => {}
            }
        }
        for (t, m) in bad {
            self.bad("connection", t, m);
        }
    }

    fn bounds(&mut self) {
        let cap = self.prog.cap;
        // Waiting only when there is no room.
        for (op, o) in self.ops.clone() {
            if !matches!(o.role, Role::Det | Role::Bc) {
                continue;
            }
            let (Some(fpb), Some((p, Out::Pending))) = (o.fpb(), o.pe.first().cloned()) else {
                continue;
            };
            let Some(cap) = cap else {
                self.bad(
                    "bounds",
                    "C08,C04,C11",
                    format!("op {} (message {}) waits on an unbounded mailbox", op, o.m),
                );
                continue;
            };
            if o.role == Role::Det {
                let hi = self
                    .msgs
                    .iter()
                    .filter(|(m, i)| {
                        **m != o.m
                            && !self.is_bc(**m)
                            && self.fpb(**m).map_or(false, |b| b < p)
                            && !i.hs.first().map_or(false, |x| x.0 < fpb)
                            && !i.drops.first().map_or(false, |x| x.0 < fpb)
                    })
                    .count();
                if hi < cap {
                    self.bad(
                        "bounds",
                        "C08,C04,C09",
                        format!("op {} (message {}) waits although at most {} of {} places are taken", op, o.m, hi, cap),
                    );
                }
            } else {
                let lim = cap.max(1);
                let stops = self.stop_all.iter().filter(|s| s.0 < p).count();
                let mut worst = 0;
                for g in self.grps.values() {
                    if g.add_b > p || g.del_e.map_or(false, |d| d < fpb) {
                        continue;
                    }
                    let lag = self
                        .msgs
                        .iter()
                        .filter(|(m, i)| {
                            **m != o.m
                                && self.is_bc(**m)
                                && self.fpb(**m).map_or(false, |b| b < p)
                                && !i.hs.iter().any(|x| Some(x.1) == g.actor && x.0 < fpb)
                                && !i.drops.iter().any(|x| x.1 == 0 && x.0 < fpb)
                        })
                        .count();
                    worst = worst.max(lag + stops);
                }
                if worst < lim {
                    self.bad(
                        "bounds",
                        "C08,C11,C04",
                        format!("broadcast op {} (message {}) waits although no live mailbox lags more than {} behind (capacity {})", op, o.m, worst, cap),
                    );
                }
            }
        }
        let Some(cap) = cap else { return };
        // Never more accepted than allowed.
        let mut extra = 0usize;
        let mut acc_uni: std::collections::BTreeSet<MsgId> = Default::default();
        let mut lag: BTreeMap<MbId, i64> = BTreeMap::new();
        let slack = |h: &Hist, g: &Grp| 1 + g.actor.map_or(false, |a| h.custom(a)) as usize;
        let mut bad = None;
        let mut hol = 0usize;
        let mut live: std::collections::BTreeSet<MbId> = Default::default();
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::MbAddB { mb } => {
                    live.insert(*mb);
                    hol += 2;
                }
                Ev::ActGone { .. } | Ev::RecvDropE { .. } | Ev::NestE { .. } => extra += 1,
                Ev::DispDropE { .. } => extra += 2,
                Ev::PollE { op, out: Out::Queued } => {
                    let o = &self.ops[op];
                    let i = &self.msgs[&o.m];
                    if o.role == Role::Det {
                        if i.hs.is_empty() || i.hs[0].0 > p {
                            if !i.drops.first().map_or(false, |d| d.0 < p) {
                                acc_uni.insert(o.m);
                            }
                        }
                        if acc_uni.len() > cap + hol + extra {
                            bad = Some(format!(
                                "{} accepted unhandled messages (event {}) in a mailbox of capacity {}",
                                acc_uni.len(),
                                p,
                                cap
                            ));
                        }
                    } else if o.role == Role::Bc {
                        for (id, g) in &self.grps {
                            let fpb = o.fpb().unwrap();
                            if g.add_e.map_or(true, |x| x > fpb)
                                || g.del_b.map_or(false, |d| d < p)
                                || g.del_e.map_or(false, |d| d < p)
                            {
                                continue;
                            }
                            if let Some(a) = g.actor {
                                let ai = &self.acts[&a];
                                // An actor on its way out may have lost its queue already.
                                let dying = [
                                    ai.panicking,
                                    ai.end.as_ref().map(|e| e.0),
                                    ai.stop.first().copied(),
                                    ai.started.filter(|s| !s.1).map(|s| s.0),
                                ]
                                .iter()
                                .flatten()
                                .any(|d| *d < p);
                                if dying || !ai.msg_drops.is_empty() {
                                    continue;
                                }
                                if i.hs.iter().any(|x| x.1 == a && x.0 < p) {
                                    continue;
                                }
                            }
                            let l = lag.entry(*id).or_default();
                            *l += 1;
                            if *l > (cap.max(1) + slack(self, g)) as i64 {
                                bad = Some(format!(
                                    "mailbox {} lags {} accepted broadcasts behind (event {}) with capacity {}",
                                    id, l, p, cap
                                ));
                            }
                        }
                    }
                }
                Ev::HStart { m, actor, .. } => {
                    acc_uni.remove(m);
                    if self.is_bc(*m) {
                        if let (Some(q), Some(g)) = (self.queued(*m), self.acts[actor].mb) {
                            let fpb = self.fpb(*m).unwrap();
                            if q < p && self.grps[&g].add_e.map_or(false, |x| x <= fpb) {
                                *lag.entry(g).or_default() -= 1;
                            }
                        }
                    }
                }
                Ev::PayDrop { m, copy: 0 } => {
                    acc_uni.remove(m);
                }
                _ => {}
            }
            if bad.is_some() {
                break;
            }
        }
        if let Some(m) = bad {
            self.bad("bounds", "C08,C11,C09", m);
        }
    }

    fn sole_actor(&self) -> Option<ActorId> {
        let started: Vec<ActorId> = self
            .acts
            .iter()
            .filter(|(_, i)| !i.start.is_empty())
            .map(|x| *x.0)
            .collect();
        if started.len() == 1 {
            Some(started[0])
        } else {
            None
        }
    }

    fn fifo(&mut self) {
        let Some(a) = self.sole_actor() else { return };
        if !self.acts[&a].recv_drop.is_empty() || self.acts[&a].recv_new.len() > 0 && self.custom(a) && !self.acts[&a].recv_drop.is_empty() {
            return;
        }
        let v: Vec<(MsgId, usize, usize, usize)> = self
            .msgs
            .iter()
            .filter(|(m, i)| !self.is_bc(**m) && self.prio(**m) == 0 && !i.hs.is_empty())
            .filter_map(|(m, i)| {
                let o = &self.ops[&i.op?];
                Some((*m, o.fpb()?, o.pe.first()?.0, i.hs[0].0))
            })
            .collect();
        // Select, join and dropped handlers cancel a receive, which may put a message back behind
        // others (documented).
        let cancels: Vec<usize> = self
            .log
            .iter()
            .enumerate()
            .filter(|(_, e)| {
                matches!(e, Ev::NestE { .. } | Ev::DispDropE { .. })
                    || matches!(e, Ev::HEnd { how, .. } if *how != How::Normal)
            })
            .map(|x| x.0)
            .collect();
        for x in &v {
            for y in &v {
                if x.2 < y.1 && x.3 > y.3 {
                    if cancels.iter().any(|c| y.1 < *c && *c < y.3) {
                        continue;
                    }
                    self.bad(
                        "send-order",
                        "C06,C22",
                        format!(
                            "default-priority message {} reached the mailbox (event {}) before the send of {} began (event {}) but was handled after it",
                            x.0, x.2, y.0, y.1
                        ),
                    );
                    return;
                }
            }
        }
    }

    /// A send that began while another one of no lower priority was waiting for room, and was let in
    /// before that one was.
    fn overtaken(&mut self) {
        let waiting: Vec<(MsgId, bool, usize, usize)> = self
            .ops
            .values()
            .filter(|o| matches!(o.role, Role::Det | Role::Bc))
            .filter_map(|o| {
                let from = o.pe.first().filter(|x| x.1 == Out::Pending)?.0;
                // It still waits when its last pending poll begins, and thence until it is woken, polled
                // or dropped.
                let last = o.pb[o.pe.iter().rposition(|x| x.1 == Out::Pending)?];
                let after = |v: &[usize]| v.iter().copied().find(|x| *x > last);
                let handled = self.msgs.get(&o.m).and_then(|i| i.hs.first()).map(|x| x.0);
                let to = [after(&o.woken), after(&o.pb), o.db, handled].into_iter().flatten().min().unwrap_or(self.n);
                Some((o.m, o.role == Role::Bc, from, to))
            })
            .collect();
        if waiting.is_empty() {
            return;
        }
        let let_in: Vec<(MsgId, bool, usize, usize)> = self
            .msgs
            .iter()
            .filter_map(|(m, i)| {
                let at = match (self.queued(*m), i.hs.first()) {
                    (Some(q), Some(h)) => q.min(h.0),
                    (Some(q), None) => q,
                    (None, Some(h)) => h.0,
                    (None, None) => return None,
                };
                Some((*m, self.is_bc(*m), self.fpb(*m)?, at))
            })
            .collect();
        for (e, bc, from, to) in waiting {
            for (l, l_bc, began, at) in &let_in {
                if *l_bc == bc && e != *l && from < *began && *at < to && self.prio(*l) <= self.prio(e) {
                    self.bad(
                        "overtaken",
                        "C09",
                        format!(
                            "message {} was let in by event {}, though its send began (event {}) while that of {} was waiting (from event {} to event {})",
                            l, at, began, e, from, to
                        ),
                    );
                    return;
                }
            }
        }
    }

    fn priority(&mut self) {
        let sole = self.sole_actor();
        let mut last: BTreeMap<ActorId, usize> = BTreeMap::new();
        let mut bad = None;
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::ActStarted { actor, ok: true } => {
                    last.insert(*actor, p);
                }
                Ev::HEnd { actor, .. } => {
                    last.insert(*actor, p);
                }
                Ev::HStart { m, actor, .. } => {
                    let Some(l) = last.get(actor).copied() else { continue };
                    // Receive futures made before the last handler ended may hold an older message.
                    let ai = &self.acts[actor];
                    let l = if self.custom(*actor) {
                        let created = ai.recv_new.iter().filter(|x| **x < p).count();
                        let _ = created;
                        l
                    } else {
                        l
                    };
                    let px = self.prio(*m);
                    let g = ai.mb.unwrap();
                    for (y, i) in &self.msgs {
                        if *y == *m || self.prio(*y) <= px {
                            continue;
                        }
                        let Some(q) = self.queued(*y) else { continue };
                        if q >= l {
                            continue;
                        }
                        let bc = self.is_bc(*y);
                        if bc {
                            let fpb = self.fpb(*y).unwrap();
                            if self.grps[&g].add_e.map_or(true, |x| x > fpb) {
                                continue;
                            }
                            if i.hs.iter().any(|x| x.1 == *actor && x.0 < p) {
                                continue;
                            }
                        } else {
                            if sole != Some(*actor) || i.hs.first().map_or(false, |x| x.0 < p) {
                                continue;
                            }
                            if i.drops.first().map_or(false, |d| d.0 < p) {
                                continue;
                            }
                        }
                        if !ai.msg_drops.is_empty() || !ai.recv_drop.is_empty() {
                            continue;
                        }
                        bad = Some(format!(
                            "actor {} took message {} (priority {}, event {}) although {} (priority {}) had been accepted before its previous message ended (event {})",
                            actor, m, px, p, y, self.prio(*y), l
                        ));
                    }
                }
                _ => {}
            }
        }
        if let Some(m) = bad {
            self.bad("priority", "C07,C22,C14", m);
        }
    }

    fn nested(&mut self) {
        let mut ready: BTreeMap<u32, usize> = BTreeMap::new();
        let mut begun: BTreeMap<u32, usize> = BTreeMap::new();
        let mut joins: BTreeMap<u32, bool> = BTreeMap::new();
        let mut bad = vec![];
        // By actor: the open selects and joins whose future wants to be polled (id, depth of the
        // handlers that run in it, how many of them began since the future was polled)
        let mut busy_nests: BTreeMap<ActorId, Vec<(u32, u32, u32)>> = BTreeMap::new();
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::NestB {
                    id,
                    join,
                    actor,
                    depth,
                    busy,
                    ..
                } => {
                    begun.insert(*id, p);
                    joins.insert(*id, *join);
                    if *busy {
                        let open = busy_nests.entry(*actor).or_default();
                        open.push((*id, *depth, 0));
                    }
                }
                Ev::NestPoll { id, ready: r } => {
                    if *r {
                        ready.insert(*id, p);
                    }
                    for open in busy_nests.values_mut() {
                        for n in open.iter_mut().filter(|n| n.0 == *id) {
                            n.2 = 0;
                        }
                        open.retain(|n| n.0 != *id || !*r);
                    }
                }
                Ev::HStart { actor, depth, .. } => {
                    let open = busy_nests.entry(*actor).or_default();
                    // Those of handlers that were cancelled
                    open.retain(|n| n.1 <= *depth);
                    for n in open.iter_mut().filter(|n| n.1 == *depth) {
                        n.2 += 1;
                        if n.2 == 2 {
                            bad.push(format!("two messages were handled in select/join {} of actor {} without polling its future, which was ready to be polled", n.0, actor));
                        }
                    }
                }
                Ev::NestE {
                    actor,
                    id,
                    left,
                    val,
                } => {
                    let b = begun[id];
                    for open in busy_nests.values_mut() {
                        open.retain(|n| n.0 != *id);
                    }
                    if *left {
                        if !ready.contains_key(id) || *val != *id as u64 + 5000 {
                            bad.push(format!("select/join {} of actor {} returned an output its future did not produce", id, actor));
                        }
                    } else {
                        let ai = &self.acts[actor];
                        let told = ai.stop_self.iter().any(|s| s.0 < p)
                            || self.stop_all.iter().any(|s| s.0 < p)
                            || self.s_lo[..=p].iter().skip(2).any(|x| *x <= 0);
                        if !told {
                            bad.push(format!("select {} of actor {} handed its future back although the actor was not told to stop", id, actor));
                        }
                    }
                    // After a nested stop request took effect, no further message within.
                    let ai = &self.acts[actor];
                    for (s, m) in &ai.stop_self {
                        if *s < b || *s > p {
                            continue;
                        }
                        let end = self.msgs[m]
                            .he
                            .iter()
                            .find(|x| x.1 == *actor && x.0 > *s && x.0 < p && x.2 == Some(How::Normal));
                        if let Some(en) = end {
                            let started_in = self.msgs[m].hs.iter().any(|x| x.0 > b && x.0 < p);
                            if started_in && *left && !joins[id] && ready.get(id).map_or(false, |r| *r > en.0) {
                                bad.push(format!("select {} of actor {} kept polling its future after the actor was told to stop", id, actor));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for m in bad {
            self.bad("select-join", "C21,C13", m);
        }
    }

    fn scoped(&mut self) {
        let mut ready: BTreeMap<u32, usize> = BTreeMap::new();
        let mut polls: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
        for (p, e) in self.log.iter().enumerate() {
            if let Ev::InnerPoll { op, ready: r } = e {
                polls.entry(*op).or_default().push(p);
                if *r {
                    ready.insert(*op, p);
                }
            }
        }
        for (op, o) in self.ops.clone() {
            if o.role != Role::Scoped {
                continue;
            }
            for (k, (pe, out)) in o.pe.iter().enumerate() {
                let pb = o.pb[k];
                if self.m_hi[pb] <= 0 && *out != Out::Gone {
                    self.bad(
                        "scoped",
                        "C20,C17",
                        format!("scoped task op {} answered {:?} (event {}) after the last mailbox was gone", op, out, pe),
                    );
                }
                match out {
                    Out::Val(v) => {
                        if *v != o.inner as u64 || !ready.get(&o.inner).map_or(false, |r| r < pe && *r > pb) {
                            self.bad("scoped", "C20", format!("scoped task op {} reported an output its future did not produce", op));
                        }
                    }
                    _ => {
                        if ready.get(&o.inner).map_or(false, |r| *r > pb && r < pe) {
                            self.bad("scoped", "C20", format!("scoped task op {} lost the output of its future", op));
                        }
                    }
                }
                if *out == Out::Gone && polls.get(&o.inner).map_or(false, |v| v.iter().any(|x| x > pe)) {
                    self.bad("scoped", "C20", format!("scoped task op {} polled its future after giving up", op));
                }
            }
        }
    }

    fn lens(&mut self) {
        let mut begun: BTreeMap<u32, usize> = BTreeMap::new();
        let mut bad = vec![];
        for (p, e) in self.log.iter().enumerate() {
            match e {
                Ev::LenB { q } => {
                    begun.insert(*q, p);
                }
                Ev::LenE { q, len, .. } => {
                    let b = begun[q];
                    if self.m_hi[b] <= 0 && *len != 0 {
                        bad.push(format!("length {} (event {}) although every mailbox is gone", len, p));
                        continue;
                    }
                    let uni = self
                        .msgs
                        .iter()
                        .filter(|(m, i)| {
                            !self.is_bc(**m)
                                && self.fpb(**m).map_or(false, |x| x < p)
                                && !i.hs.first().map_or(false, |x| x.0 < b)
                                && !i.drops.first().map_or(false, |x| x.0 < b)
                        })
                        .count();
                    let stops = self.stop_all.iter().filter(|s| s.0 < p).count();
                    let bcs = self
                        .msgs
                        .iter()
                        .filter(|(m, i)| {
                            self.is_bc(**m)
                                && self.fpb(**m).map_or(false, |x| x < p)
                                && !i.drops.iter().any(|x| x.1 == 0 && x.0 < b)
                        })
                        .count();
                    // A stop request made by select or join on the actor's behalf may be queued.
                    let own: usize = self.acts.values().map(|a| a.stop_self.iter().filter(|s| s.0 < p).count()).sum();
                    if *len > uni + bcs + stops + own {
                        bad.push(format!(
                            "length {} (event {}) exceeds what could have been accepted ({} + {} + {})",
                            len,
                            p,
                            uni,
                            bcs,
                            stops + own
                        ));
                    }
                }
                _ => {}
            }
        }
        for m in bad {
            self.bad("len", "C23,C22,C18", m);
        }
    }

    fn spans(&mut self) {
        let bad: Vec<MsgId> = self
            .log
            .iter()
            .filter_map(|e| match e {
                Ev::Span { m, ok: false } => Some(*m),
                _ => None,
            })
            .collect();
        for m in bad {
            self.bad(
                "span",
                "C24",
                format!("the handler of message {} does not run in a span descending from its sender's", m),
            );
        }
    }

    fn quiescence(&mut self) {
        let ph3 = self.phase[3];
        let ph4 = self.phase[4];
        let ph5 = self.phase[5];
        let open = |h: &Hist, m: MsgId, at: usize| {
            let Some(i) = h.msgs.get(&m) else { return false };
            let s = i.hs.iter().filter(|x| x.0 < at).count();
            let e = i.he.iter().filter(|x| x.0 < at).count();
            s > e
        };
        // Pending operations once faults have stopped and all gates are open.
        for (op, o) in self.ops.clone() {
            if o.new > ph3 || o.db.map_or(false, |d| d < ph3) || o.done().map_or(false, |d| d.0 < ph3) {
                continue;
            }
            let polled = o.pb.iter().rfind(|p| **p < ph3);
            if polled.map_or(true, |p| o.woken.iter().any(|w| p < w && *w < ph3)) {
                // Woken, but its owner is busy with something else.
                continue;
            }
            match o.role {
                Role::Join => {
                    if self.m_hi[ph3] <= 0 {
                        self.bad("progress", "C17,C22", format!("join handle op {} still pending although every mailbox is gone", op));
                    }
                }
                Role::Scoped => {
                    if self.m_hi[ph3] <= 0 || !o.never {
                        self.bad("progress", "C20", format!("scoped task op {} hangs", op));
                    }
                }
                Role::Det => self.bad(
                    "progress",
                    "C04,C02,C05,C08,C09,C16,C19,C22",
                    format!("send op {} of message {} never completed", op, o.m),
                ),
                Role::Bc => self.bad(
                    "progress",
                    "C04,C02,C05,C08,C09,C10,C11,C16,C19",
                    format!("broadcast op {} of message {} never completed", op, o.m),
                ),
                Role::Send | Role::Res | Role::Sink => {
                    if !open(self, o.m, ph3) {
                        self.bad(
                            "progress",
                            "C04,C02,C03,C05,C09,C16,C19,C22",
                            format!("op {} awaiting the result of message {} never completed", op, o.m),
                        );
                    }
                }
                Role::Recv | Role::Disp => {}
            }
        }
        // Messages left behind.
        for (m, i) in self.msgs.clone() {
            let Some(c) = i.created else { continue };
            if c > ph3 || open(self, m, ph3) {
                continue;
            }
            if !i.drops.iter().any(|d| d.1 == 0 && d.0 < ph3) {
                let o = &self.ops[&i.op.unwrap()];
                if o.done().is_some() || o.db.is_some() {
                    self.bad(
                        "left-behind",
                        "C02,C04,C05,C10,C16,C18,C13,C14,C19,C21,C11",
                        format!("message {} was left behind: neither handled nor destroyed", m),
                    );
                }
            }
        }
        // Handlers that hang although everything they wait for is there.
        let mut never: BTreeMap<ActorId, Vec<u32>> = BTreeMap::new();
        for e in &self.log[..ph3] {
            match e {
                Ev::NestB { actor, id, never: true, .. } => never.entry(*actor).or_default().push(*id),
                Ev::NestE { actor, id, .. } => never.entry(*actor).or_default().retain(|x| x != id),
                _ => {}
            }
        }
        for m in self.msgs.keys().copied().collect::<Vec<_>>() {
            let i = self.msgs[&m].clone();
            for (s, a) in i.hs.iter().filter(|x| x.0 < ph3) {
                let a = *a;
                if i.he.iter().any(|x| x.1 == a && *s < x.0 && x.0 < ph3) {
                    continue;
                }
                if never.get(&a).map_or(true, |v| v.is_empty()) {
                    self.bad("progress", "C21,C04", format!("the handler of message {} on actor {} hangs", m, a));
                }
            }
        }
        // Actors of an address without strong handles.
        for (a, i) in self.acts.clone() {
            if self.s_hi[ph3] <= 0 && i.gone.map_or(true, |g| g > ph3) && i.launched < ph3 {
                self.bad("last-strong", "C16,C15,C04", format!("actor {} still runs although the last strong address is gone", a));
            }
            if self.s_hi[ph4] <= 0 && i.gone.map_or(true, |g| g > ph4) && i.launched < ph4 {
                self.bad("last-strong", "C16,C15,C04", format!("actor {} still runs although the last strong address is gone", a));
            }
            if i.gone.map_or(true, |g| g > ph5) && i.launched < ph5 {
                self.bad(
                    "last-strong",
                    "C16,C15,C04,C18,C12",
                    format!("actor {} never stopped although the last strong address is gone", a),
                );
            }
        }
        // Leaks.
        let end = self.phase[6];
        for (m, i) in self.msgs.clone() {
            if i.created.is_none() {
                continue;
            }
            let mut want: Vec<u32> = (0..=i.clones).collect();
            for (_, c) in &i.drops {
                match want.iter().position(|x| x == c) {
                    Some(p) => {
                        want.remove(p);
                    }
                    None => self.bad("leak", "C18,C01", format!("copy {} of message {} destroyed twice", c, m)),
                }
            }
            if let Some(c) = want.first() {
                self.bad("leak", "C18,C02", format!("copy {} of message {} was never destroyed", c, m));
            }
        }
        let _ = end;
        for e in self.log {
            if let Ev::Note { s, a, .. } = e {
                if *s == "wakers" && *a as i64 != 0 {
                    self.out.push(Violation {
                        props: props("C18,C04"),
                        rule: "leak",
                        msg: format!("{} wakers are still held after everything is gone", *a as i64),
                    });
                }
            }
        }
        let _ = self.n;
    }
}
