//! Deterministic fiber runtime.
//!
//! All simulated threads ("fibers") of a run live on one OS thread. Exactly one runs at a time;
//! control moves only at scheduling points, and every decision (who runs next, which fault fires)
//! is one entry of a recorded choice stream. A run is a pure function of its configuration, so a
//! seed or a recorded sparse choice list replays it exactly.

use ::std::cell::Cell;
use ::std::panic::{catch_unwind, AssertUnwindSafe};
use ::std::ptr::null_mut;

/// Maximum number of fibers alive in one run.
pub const MAX_FIBERS: usize = 120;
/// Pseudo fiber id of code running outside any fiber.
pub const MAIN: u32 = 127;
const STACK: usize = 512 * 1024;

/// Why a fiber is blocked.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    /// Waiting for a lock.
    Lock,
    /// Waiting to be woken (a task whose future is pending).
    Wake,
    /// Waiting for everything else to be quiescent.
    Settle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked(Why),
    Done,
}

/// How the scheduler takes its decisions.
#[derive(Clone, Copy, Debug)]
pub enum Strategy {
    /// Switch to a random other fiber with probability `num`/1024 at every point.
    Walk {
        /// Numerator.
        num: u32,
    },
    /// Random priorities with `k` priority-change points in the first `horizon` steps.
    Pct {
        /// Number of change points.
        k: u32,
        /// Steps among which they are placed.
        horizon: u32,
    },
    /// Run each fiber until it blocks; `k` random preemptions in the first `horizon` steps.
    Few {
        /// Number of preemptions.
        k: u32,
        /// Steps among which they are placed.
        horizon: u32,
    },
    /// Never preempt; pick at random among the runnable when the running fiber blocks.
    RunToBlock,
}

/// Configuration of a run.
#[derive(Clone, Debug)]
pub struct Config {
    /// Seed of all decisions.
    pub seed: u64,
    /// Scheduling strategy.
    pub strategy: Strategy,
    /// Scheduling points after which the run is given up as not terminating.
    pub max_steps: u64,
    /// Numerator (of 1024) of the probability that a pending timer fires early at a point.
    pub timer_num: u32,
    /// Numerator (of 1024) of the probability that a weak compare-exchange fails spuriously.
    pub cas_num: u32,
    /// Recorded choices to follow instead of drawing: (position, value), all others are 0.
    pub replay: Option<Vec<(u32, u32)>>,
}

/// What a run did.
#[derive(Clone, Debug, Default)]
pub struct Report {
    /// Violation raised inside the run: (class, message).
    pub failure: Option<(String, String)>,
    /// Nonzero choices: (position, value).
    pub choices: Vec<(u32, u32)>,
    /// Number of choices taken.
    pub n_choices: u32,
    /// Scheduling points passed.
    pub steps: u64,
    /// Switches between fibers.
    pub switches: u64,
    /// Preemptions (switches away from a runnable fiber).
    pub preemptions: u64,
    /// Simulated time at the end.
    pub time: u64,
    /// Early timer firings.
    pub early_timers: u64,
    /// Spurious compare-exchange failures.
    pub cas_failures: u64,
    /// Fibers created.
    pub fibers: u32,
    /// Fibers still blocked at the end (name, why).
    pub stuck: Vec<(String, Why)>,
    /// Hash over the sequence of (fiber switches): identifies the interleaving.
    pub sched_hash: u64,
}

struct Fiber {
    sp: usize,
    stack: *mut u8,
    st: St,
    entry: Option<Box<dyn FnOnce()>>,
    name: String,
    panics: u32,
    prio: u64,
}

struct Rt {
    fibers: Vec<Fiber>,
    runnable: u128,
    cur: u32,
    main_sp: usize,
    rng: u64,
    cfg: Config,
    marks: Vec<u64>,
    mark_pos: usize,
    low_prio: u64,
    no_preempt: u32,
    rep: Report,
    replay_pos: usize,
    timers: Vec<(u64, u64, u32)>,
    timer_seq: u64,
    abort: bool,
    same: u32,
    fault_budget: u32,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(null_mut()) };
    static POOL: Cell<Vec<usize>> = const { Cell::new(Vec::new()) };
}

#[inline(always)]
fn rt() -> Option<&'static mut Rt> {
    let p = RT.with(|r| r.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

fn stack_get() -> *mut u8 {
    let mut pool = POOL.with(|p| p.take());
    let s = pool.pop();
    POOL.with(|p| p.set(pool));
    match s {
        Some(s) => s as *mut u8,
        None => unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let m = mmap(null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(m as isize != -1, "mmap failed");
            mprotect(m, 4096, 0);
            m
        },
    }
}

fn stack_put(s: *mut u8) {
    let mut pool = POOL.with(|p| p.take());
    pool.push(s as usize);
    POOL.with(|p| p.set(pool));
}

::std::arch::global_asm!(
    ".text",
    ".globl xsim_switch",
    "xsim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl xsim_tramp",
    "xsim_tramp:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym fiber_main,
);

extern "C" {
    fn xsim_switch(save: *mut usize, to: usize, escaped: *mut u8);
    fn xsim_tramp();
}

extern "C" fn fiber_main() -> ! {
    let entry = {
        let r = rt().unwrap();
        let c = r.cur as usize;
        r.fibers[c].entry.take().unwrap()
    };
    let res = catch_unwind(AssertUnwindSafe(entry));
    let r = rt().unwrap();
    let c = r.cur as usize;
    r.fibers[c].panics = 0;
    if res.is_err() {
        let n = r.fibers[c].name.clone();
        fail("panic", &format!("unexpected panic in {}: {}", n, last_panic()));
    }
    let r = rt().unwrap();
    r.fibers[c].st = St::Done;
    r.runnable &= !(1u128 << c);
    r.leave();
    unreachable!()
}

impl Rt {
    fn next_u64(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    fn below(&mut self, n: u64) -> u64 {
        ((self.next_u64() as u128 * n as u128) >> 64) as u64
    }

    /// Record a choice among `n`; `draw` proposes the value when not replaying.
    fn record(&mut self, n: u32, draw: impl FnOnce(&mut Rt) -> u32) -> u32 {
        let idx = self.rep.n_choices;
        self.rep.n_choices += 1;
        let v = if self.cfg.replay.is_some() {
            let list = self.cfg.replay.as_ref().unwrap();
            let mut p = self.replay_pos;
            while p < list.len() && list[p].0 < idx {
                p += 1;
            }
            let v = if p < list.len() && list[p].0 == idx {
                list[p].1 % n
            } else {
                0
            };
            self.replay_pos = p;
            v
        } else {
            draw(self)
        };
        if v != 0 {
            self.rep.choices.push((idx, v));
        }
        v
    }

    /// Choose who runs next. `cur_ok`: the current fiber could go on.
    fn pick(&mut self, cur_ok: bool, force_other: bool) -> Option<u32> {
        let others = if self.cur == MAIN {
            self.runnable
        } else {
            self.runnable & !(1u128 << self.cur)
        };
        let no = others.count_ones();
        if no == 0 {
            return if cur_ok { Some(self.cur) } else { None };
        }
        let cur_in = cur_ok && !force_other;
        if cur_in && self.no_preempt > 0 {
            return Some(self.cur);
        }
        let n = no + cur_in as u32;
        if n == 1 {
            return Some(others.trailing_zeros());
        }
        let steps = self.rep.steps;
        let v = self.record(n, |r| match r.cfg.strategy {
            Strategy::Walk { num } => {
                if cur_in {
                    if r.below(1024) < num as u64 {
                        1 + r.below(no as u64) as u32
                    } else {
                        0
                    }
                } else {
                    r.below(n as u64) as u32
                }
            }
            Strategy::RunToBlock => {
                if cur_in {
                    0
                } else {
                    r.below(n as u64) as u32
                }
            }
            Strategy::Few { .. } => {
                let mut hit = false;
                while r.mark_pos < r.marks.len() && r.marks[r.mark_pos] <= steps {
                    r.mark_pos += 1;
                    hit = true;
                }
                if !cur_in {
                    r.below(n as u64) as u32
                } else if hit {
                    1 + r.below(no as u64) as u32
                } else {
                    0
                }
            }
            Strategy::Pct { .. } => {
                while r.mark_pos < r.marks.len() && r.marks[r.mark_pos] <= steps {
                    r.mark_pos += 1;
                    if r.cur != MAIN {
                        r.low_prio -= 1;
                        let p = r.low_prio;
                        r.fibers[r.cur as usize].prio = p;
                    }
                }
                let mut best = 0u32;
                let mut best_p = if cur_in {
                    Some(r.fibers[r.cur as usize].prio)
                } else {
                    None
                };
                let mut m = others;
                let mut i = cur_in as u32;
                while m != 0 {
                    let f = m.trailing_zeros();
                    m &= m - 1;
                    let p = r.fibers[f as usize].prio;
                    if best_p.map_or(true, |b| p > b) {
                        best_p = Some(p);
                        best = i;
                    }
                    i += 1;
                }
                best
            }
        });
        if cur_in && v == 0 {
            return Some(self.cur);
        }
        let mut k = v - cur_in as u32;
        let mut m = others;
        while k > 0 {
            m &= m - 1;
            k -= 1;
        }
        Some(m.trailing_zeros())
    }

    fn switch_to(&mut self, f: u32) {
        let from = self.cur;
        if from == f {
            return;
        }
        self.rep.switches += 1;
        if trace_on() {
            let nm = |f: u32| if f == MAIN { "main".to_string() } else { self.fibers[f as usize].name.clone() };
            eprintln!("  [{}] {} -> {}", self.rep.steps, nm(from), nm(f));
        }
        self.rep.sched_hash = (self.rep.sched_hash ^ (f as u64 + 1)).wrapping_mul(0x100000001b3);
        self.cur = f;
        self.same = 0;
        let save: *mut usize = if from == MAIN {
            &mut self.main_sp
        } else {
            &mut self.fibers[from as usize].sp
        };
        let to = if f == MAIN {
            self.main_sp
        } else {
            self.fibers[f as usize].sp
        };
        // The runtime itself escapes into the call, so that nothing is cached across the switch.
        let this = self as *mut Rt as *mut u8;
        unsafe { xsim_switch(save, to, this) }
    }

    /// The current fiber cannot go on: run another one, or return to the main loop.
    fn leave(&mut self) {
        match self.pick(false, false) {
            Some(f) => self.switch_to(f),
            None => self.switch_to(MAIN),
        }
    }

    fn fire_timer(&mut self, early: bool) -> bool {
        let mut best: Option<usize> = None;
        for (i, t) in self.timers.iter().enumerate() {
            if best.map_or(true, |b| (t.0, t.1) < (self.timers[b].0, self.timers[b].1)) {
                best = Some(i);
            }
        }
        match best {
            None => false,
            Some(i) => {
                let (at, _, fib) = self.timers.remove(i);
                if at > self.rep.time {
                    self.rep.time = at;
                }
                if early {
                    self.rep.early_timers += 1;
                }
                let hook = TIMER_HOOK.with(|h| h.get());
                if let Some(h) = hook {
                    h(fib);
                }
                true
            }
        }
    }
}

thread_local! {
    static TIMER_HOOK: Cell<Option<fn(u32)>> = const { Cell::new(None) };
    static LAST_PANIC: Cell<String> = const { Cell::new(String::new()) };
}

/// Install the function that is told about fired timers (by token).
pub fn set_timer_hook(f: fn(u32)) {
    TIMER_HOOK.with(|h| h.set(Some(f)));
}

/// Whether code runs inside a fiber of a run.
pub fn in_fiber() -> bool {
    rt().map_or(false, |r| r.cur != MAIN)
}

/// Id of the running fiber, or [`MAIN`].
pub fn current_or_main() -> u32 {
    rt().map_or(MAIN, |r| r.cur)
}

/// Name of a fiber.
pub fn name(f: u32) -> String {
    match rt() {
        Some(r) if f != MAIN => r.fibers[f as usize].name.clone(),
        _ => "main".into(),
    }
}

/// A scheduling point.
#[inline]
pub fn point() {
    if let Some(r) = rt() {
        if r.cur != MAIN {
            point_slow(r, false)
        }
    }
}

/// A scheduling point with a lock just taken: others can only tell if they look at the lock without waiting
/// for it (`try_lock`). Taken in one run of four.
pub fn held_point() {
    if let Some(r) = rt() {
        if r.cur != MAIN && r.runnable & !(1u128 << r.cur) != 0 && r.cfg.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 62 == 0
        {
            point_slow(r, false)
        }
    }
}

/// Let another fiber run if there is one.
pub fn yield_now() {
    if let Some(r) = rt() {
        if r.cur != MAIN {
            point_slow(r, true)
        }
    }
}

fn point_slow(r: &mut Rt, force: bool) {
    r.rep.steps += 1;
    r.same += 1;
    if r.rep.steps > r.cfg.max_steps {
        let m = format!(
            "no progress: {} scheduling points without the run ending (running: {})",
            r.rep.steps, r.fibers[r.cur as usize].name
        );
        fail("livelock", &m);
    }
    if r.cfg.timer_num > 0 && !r.timers.is_empty() && r.no_preempt == 0 {
        let num = r.cfg.timer_num as u64;
        let v = r.record(2, |r| (r.below(1024) < num) as u32);
        if v == 1 {
            r.fire_timer(true);
        }
    }
    if r.runnable & !(1u128 << r.cur) == 0 {
        return;
    }
    let force = force || r.same > 5000;
    let cur = r.cur;
    if let Some(f) = r.pick(true, force) {
        if f != cur {
            r.rep.preemptions += 1;
            r.switch_to(f);
        }
    }
}

/// Whether a weak compare-exchange should fail spuriously now.
pub fn cas_fails() -> bool {
    match rt() {
        Some(r) if r.cur != MAIN && r.cfg.cas_num > 0 => {
            let num = r.cfg.cas_num as u64;
            if r.record(2, |r| (r.below(1024) < num) as u32) == 1 {
                r.rep.cas_failures += 1;
                true
            } else {
                false
            }
        }
        _ => false,
    }
}

/// A fault decision: 0 (nothing) or 1..n, nonzero with probability `num`/1024.
pub fn fault(n: u32, num: u32) -> u32 {
    match rt() {
        Some(r) if num > 0 => {
            if r.fault_budget == 0 {
                return 0;
            }
            let v = r.record(n, |r| {
                if r.below(1024) < num as u64 {
                    1 + r.below(n as u64 - 1) as u32
                } else {
                    0
                }
            });
            if v != 0 {
                r.fault_budget -= 1;
            }
            v
        }
        _ => 0,
    }
}

/// Stop or allow injecting faults.
pub fn set_fault_budget(n: u32) {
    if let Some(r) = rt() {
        r.fault_budget = n;
    }
}

/// Allow or forbid preemption (nesting).
pub fn no_preempt(on: bool) {
    if let Some(r) = rt() {
        if on {
            r.no_preempt += 1
        } else {
            r.no_preempt -= 1
        }
    }
}

/// Scheduling points passed so far.
pub fn steps() -> u64 {
    rt().map_or(0, |r| r.rep.steps)
}

/// Count the strategy's horizon from here on.
pub fn marks_from_here() {
    if let Some(r) = rt() {
        let s = r.rep.steps;
        for m in r.marks.iter_mut() {
            *m += s;
        }
    }
}

/// Block the current fiber until it is unblocked.
pub fn block(why: Why) {
    let r = rt().expect("blocking outside a simulation");
    if r.cur == MAIN {
        panic!("simulation error: main would block");
    }
    let c = r.cur as usize;
    r.fibers[c].st = St::Blocked(why);
    r.runnable &= !(1u128 << c);
    r.leave();
}

/// Unblock a fiber if it is blocked for that reason.
pub fn unblock(f: u32, why: Why) {
    if let Some(r) = rt() {
        let fb = &mut r.fibers[f as usize];
        if fb.st == St::Blocked(why) {
            fb.st = St::Runnable;
            r.runnable |= 1u128 << f;
        }
    }
}

/// Unblock a set of lock waiters.
pub fn unblock_mask(mut m: u128) {
    while m != 0 {
        let f = m.trailing_zeros();
        m &= m - 1;
        unblock(f, Why::Lock);
    }
}

/// Wait until nothing else can run and no timer is pending.
pub fn settle() {
    block(Why::Settle);
}

/// Current simulated time.
pub fn now() -> u64 {
    rt().map_or(0, |r| r.rep.time)
}

/// Arm a timer: the timer hook gets `token` when it fires.
pub fn timer(after: u64, token: u32) {
    if let Some(r) = rt() {
        let at = r.rep.time + after;
        r.timer_seq += 1;
        let s = r.timer_seq;
        r.timers.push((at, s, token));
    }
}

/// Spawn a fiber.
pub fn spawn(name: String, f: Box<dyn FnOnce()>) -> u32 {
    let r = rt().expect("spawn outside a simulation");
    let id = r.fibers.len();
    if id >= MAX_FIBERS {
        // A limit of the simulator: says nothing about the code.
        fail("discard", "too many fibers");
    }
    let stack = stack_get();
    let sp = unsafe {
        let top = stack.add(STACK) as usize & !15;
        // layout popped by xsim_switch: r15 r14 r13 r12 rbx rbp ret
        let frame = (top - 16 - 7 * 8) as *mut usize;
        for i in 0..6 {
            *frame.add(i) = 0;
        }
        *frame.add(6) = xsim_tramp as usize;
        frame as usize
    };
    // At xsim_tramp entry rsp = frame + 56 = top - 16, 16-byte aligned before the call.
    let prio = (1u64 << 32) + r.next_u64() % (1 << 30);
    r.fibers.push(Fiber {
        sp,
        stack,
        st: St::Runnable,
        entry: Some(f),
        name,
        panics: 0,
        prio,
    });
    r.runnable |= 1u128 << id;
    r.rep.fibers += 1;
    id as u32
}

/// Number of fibers created so far.
pub fn fiber_count() -> usize {
    rt().map_or(0, |r| r.fibers.len())
}

/// Give up the run with a violation. Does not return inside a fiber.
pub fn fail(class: &str, msg: &str) -> ! {
    match rt() {
        Some(r) => {
            if r.rep.failure.is_none() {
                r.rep.failure = Some((class.to_string(), msg.to_string()));
            }
            r.abort = true;
            if r.cur == MAIN {
                panic!("violation outside a fiber: {}: {}", class, msg);
            }
            loop {
                r.switch_to(MAIN);
            }
        }
        None => panic!("violation outside a simulation: {}: {}", class, msg),
    }
}

/// Whether the current fiber is unwinding.
pub fn panicking() -> bool {
    match rt() {
        Some(r) if r.cur != MAIN => {
            let f = &mut r.fibers[r.cur as usize];
            // A panic that was caught behind our back.
            if f.panics > 0 && !::std::thread::panicking() {
                f.panics = 0;
            }
            f.panics > 0
        }
        _ => false,
    }
}

/// To be called by the panic hook.
pub fn note_panic(msg: String) {
    LAST_PANIC.with(|l| l.set(msg));
    match rt() {
        Some(r) if r.cur != MAIN => r.fibers[r.cur as usize].panics += 1,
        _ => {}
    }
}

/// Message of the last panic noted.
pub fn last_panic() -> String {
    let s = LAST_PANIC.with(|l| l.take());
    LAST_PANIC.with(|l| l.set(s.clone()));
    s
}

/// `catch_unwind` that keeps the per-fiber panic state.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = match rt() {
        Some(r) if r.cur != MAIN => r.fibers[r.cur as usize].panics,
        _ => 0,
    };
    let res = catch_unwind(AssertUnwindSafe(f));
    if let Some(r) = rt() {
        if r.cur != MAIN {
            r.fibers[r.cur as usize].panics = before;
        }
    }
    res.map_err(|_| last_panic())
}

/// Execute one run: `main` is fiber 0.
pub fn run(cfg: Config, main: Box<dyn FnOnce()>) -> Report {
    assert!(rt().is_none(), "nested simulation");
    let mut r = Box::new(Rt {
        fibers: Vec::with_capacity(MAX_FIBERS),
        runnable: 0,
        cur: MAIN,
        main_sp: 0,
        rng: cfg.seed ^ 0x5851F42D4C957F2D,
        marks: Vec::new(),
        mark_pos: 0,
        low_prio: 1 << 31,
        no_preempt: 0,
        rep: Report::default(),
        replay_pos: 0,
        timers: Vec::new(),
        timer_seq: 0,
        abort: false,
        same: 0,
        fault_budget: u32::MAX,
        cfg,
    });
    r.rep.sched_hash = 0xcbf29ce484222325;
    let (k, h) = match r.cfg.strategy {
        Strategy::Pct { k, horizon } | Strategy::Few { k, horizon } => (k, horizon),
        _ => (0, 1),
    };
    let mut marks: Vec<u64> = (0..k).map(|_| 1 + r.below(h.max(1) as u64)).collect();
    marks.sort();
    r.marks = marks;
    RT.with(|c| c.set(&mut *r as *mut Rt));
    spawn("driver".into(), main);
    loop {
        let r = rt().unwrap();
        if r.abort {
            break;
        }
        if let Some(f) = r.pick(false, false) {
            r.switch_to(f);
            continue;
        }
        if r.fire_timer(false) {
            continue;
        }
        let settled: Option<usize> = r
            .fibers
            .iter()
            .position(|f| f.st == St::Blocked(Why::Settle));
        if let Some(i) = settled {
            // A lock that nobody will release while everything is quiescent is a deadlock.
            if let Some(f) = r.fibers.iter().find(|f| f.st == St::Blocked(Why::Lock)) {
                r.rep.failure = Some((
                    "deadlock".into(),
                    format!("deadlock: {} waits forever for a lock", f.name),
                ));
                break;
            }
            unblock(i as u32, Why::Settle);
            continue;
        }
        break;
    }
    RT.with(|c| c.set(null_mut()));
    for f in &r.fibers {
        match f.st {
            St::Blocked(w) => r.rep.stuck.push((f.name.clone(), w)),
            _ => {}
        }
    }
    if r.rep.failure.is_none() {
        if let Some((n, _)) = r.rep.stuck.iter().find(|s| s.1 == Why::Lock) {
            r.rep.failure = Some((
                "deadlock".into(),
                format!("deadlock: {} waits forever for a lock", n),
            ));
        }
    }
    let clean = r.rep.failure.is_none() && r.rep.stuck.is_empty();
    let fibers = ::std::mem::take(&mut r.fibers);
    for mut f in fibers {
        // What an abandoned fiber owned is leaked; nothing refers to its stack itself any more.
        if f.st != St::Done && !clean {
            ::std::mem::forget(f.entry.take());
        }
        stack_put(f.stack);
    }
    ::std::mem::take(&mut r.rep)
}

/// Development aid: print every switch.
fn trace_on() -> bool {
    thread_local!(static T: Cell<u8> = const { Cell::new(2) });
    T.with(|t| {
        if t.get() == 2 {
            t.set(::std::env::var_os("XSIM_TRACE").is_some() as u8);
        }
        t.get() == 1
    })
}
