//! One case = (property, index): generate, run, check; plus minimisation and replay files.

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

use crate::check::{check, from_failure, Violation};
use crate::churn;
use crate::exec::{self, RunOut};
use crate::helpers::Via;
use crate::lin;
use crate::lock;
use crate::prog;
use crate::rng::mix;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Everything interleaves at every scheduling point; rules over the history.
    Conc,
    /// One operation at a time, against the reference model.
    Lock,
    /// A few operations at once, against the same operations in every order.
    Lin,
    /// Operations repeated over and over, and what is left over.
    Churn,
}

impl Mode {
    pub fn name(self) -> &'static str {
        match self {
            Mode::Conc => "conc",
            Mode::Lock => "lock",
            Mode::Lin => "lin",
            Mode::Churn => "churn",
        }
    }
    pub fn parse(s: &str) -> Mode {
        match s {
            "conc" => Mode::Conc,
            "lock" => Mode::Lock,
            "lin" => Mode::Lin,
            "churn" => Mode::Churn,
            _ => panic!("unknown mode {}", s),
        }
    }
}

pub fn mode_of(prop: &str, index: u64) -> Mode {
    if prop == "C27" {
        return Mode::Conc;
    }
    if prop == "C29" || (prop == "C18" && index % 8 == 5) {
        return Mode::Churn;
    }
    // One lock-step run among so many.
    let every = match prop {
        "C07" | "C08" | "C09" | "C11" | "C16" | "C22" | "C23" | "C25" => 2,
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C10" | "C15" | "C17" | "C18" => 4,
        _ => 16,
    };
    if prop == "C28" || index % 7 == 3 {
        Mode::Lin
    } else if index % every == every - 1 {
        Mode::Lock
    } else {
        Mode::Conc
    }
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn case_seed(base: u64, prop: &str, index: u64) -> u64 {
    mix(mix(base ^ hash_str(prop)) ^ index.wrapping_mul(0x9E3779B97F4A7C15))
}

/// A fully determined execution.
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub mode: Mode,
    pub seed: u64,
    /// Units of the program left out.
    pub drop: Vec<u32>,
    /// Seed of the schedule and the faults.
    pub sched: u64,
    /// Recorded choices to follow instead.
    pub choices: Option<Vec<(u32, u32)>>,
}

pub struct CaseOut {
    pub out: RunOut,
    pub bad: Vec<Violation>,
}

impl Case {
    pub fn new(base: u64, prop: &str, index: u64) -> Case {
        let seed = case_seed(base, prop, index);
        Case {
            prop: prop.into(),
            mode: mode_of(prop, index),
            seed,
            drop: vec![],
            sched: mix(seed),
            choices: None,
        }
    }

    pub fn units(&self) -> Vec<u32> {
        match self.mode {
            Mode::Conc => prog::units(&prog::generate(&self.prop, self.seed)),
            Mode::Churn => churn::units(&churn::generate(&self.prop, self.seed)),
            Mode::Lin => lin::units(&lin::generate(&self.prop, self.seed)),
            Mode::Lock => lock::units(&lock::generate(&self.prop, self.seed)),
        }
    }

    pub fn run(&self) -> CaseOut {
        let mut c = self.run_once();
        if c.out.rep.failure.as_ref().map_or(false, |f| f.0 == "discard") {
            c.bad.clear();
        }
        c
    }

    fn run_once(&self) -> CaseOut {
        match self.mode {
            Mode::Conc => {
                let p = prog::without(&prog::generate(&self.prop, self.seed), &self.drop);
                let out = exec::run(&p, self.sched, self.seed, self.choices.clone());
                let mut bad = check(&p, &out);
                if let (Via::Helper(s), false) = (p.via, bad.is_empty()) {
                    // What goes wrong with the helpers only is their fault.
                    let mut q = p.clone();
                    q.via = Via::Reference(s);
                    let o = exec::run(&q, self.sched, self.seed, self.choices.clone());
                    if check(&q, &o).is_empty() {
                        for v in bad.iter_mut() {
                            v.props.push("C27".into());
                        }
                    }
                }
                CaseOut { out, bad }
            }
            Mode::Churn => {
                let p = churn::without(&churn::generate(&self.prop, self.seed), &self.drop);
                let (out, bad) = churn::run(&p, self.sched, self.seed, self.choices.clone());
                CaseOut { out, bad }
            }
            Mode::Lin => {
                let p = lin::without(&lin::generate(&self.prop, self.seed), &self.drop);
                let (out, bad) = lin::run(&p, self.sched, self.seed, self.choices.clone());
                CaseOut { out, bad }
            }
            Mode::Lock => {
                let p = lock::without(&lock::generate(&self.prop, self.seed), &self.drop);
                let (out, bad) = lock::run(&p, self.sched, self.seed);
                CaseOut { out, bad }
            }
        }
    }

    pub fn to_text(&self, rule: &str, msg: &str, hash: u64) -> String {
        let mut s = String::new();
        s += "xsim-replay 1\n";
        s += &format!("property {}\n", self.prop);
        s += &format!("mode {}\n", self.mode.name());
        s += &format!("seed {}\n", self.seed);
        s += &format!("sched {}\n", self.sched);
        s += &format!(
            "drop {}\n",
            self.drop.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
        match &self.choices {
            Some(c) => {
                s += &format!(
                    "choices {}\n",
                    c.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(",")
                )
            }
            None => s += "choices fresh\n",
        }
        s += &format!("rule {}\n", rule);
        s += &format!("message {}\n", msg.replace('\n', " "));
        s += &format!("loghash {:016x}\n", hash);
        s
    }

    pub fn parse(s: &str) -> Option<(Case, String, u64)> {
        let mut c = Case {
            prop: String::new(),
            mode: Mode::Conc,
            seed: 0,
            drop: vec![],
            sched: 0,
            choices: None,
        };
        let mut rule = String::new();
        let mut hash = 0;
        let mut lines = s.lines();
        if lines.next()? != "xsim-replay 1" {
            return None;
        }
        for l in lines {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => c.prop = v.into(),
                "mode" => c.mode = Mode::parse(v),
                "seed" => c.seed = v.parse().ok()?,
                "sched" => c.sched = v.parse().ok()?,
                "drop" => c.drop = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                "choices" => {
                    if v != "fresh" {
                        c.choices = Some(
                            v.split(',')
                                .filter(|x| !x.is_empty())
                                .map(|x| {
                                    let (a, b) = x.split_once(':').unwrap();
                                    (a.parse().unwrap(), b.parse().unwrap())
                                })
                                .collect(),
                        )
                    }
                }
                "rule" => rule = v.into(),
                "loghash" => hash = u64::from_str_radix(v, 16).ok()?,
                "---" => break,
                _ => {}
            }
        }
        Some((c, rule, hash))
    }
}

/// The violation of this property, if there is one.
pub fn hit<'a>(bad: &'a [Violation], prop: &str) -> Option<&'a Violation> {
    bad.iter().find(|v| v.props.iter().any(|p| p == prop))
}

// ---------------------------------------------------------------- worker

/// Sums over the runs of a worker, merged by the supervisor.
#[derive(Default)]
pub struct Sums {
    pub n: BTreeMap<String, u64>,
}

impl Sums {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_default() += v;
        }
    }
}

fn account(s: &mut Sums, o: &RunOut, mode: Mode) {
    s.add("runs", 1);
    s.add(&format!("mode.{}", mode.name()), 1);
    let r = &o.rep;
    s.add("sched.points", r.steps);
    if r.failure.as_ref().map_or(false, |f| f.0 == "discard") {
        s.add("other.discarded_at_a_limit_of_the_simulator", 1);
    }
    if r.steps > 100_000 {
        s.add("other.over_100000_scheduling_points", 1);
    }
    if r.steps > 200_000 {
        s.add("other.over_200000_scheduling_points", 1);
    }
    s.add("sched.switches", r.switches);
    s.add("sched.preemptions", r.preemptions);
    s.add("sched.choices", r.n_choices as u64);
    s.add("sim.ticks", r.time);
    s.add("sim.fibers", r.fibers as u64);
    s.add("fault.early_timer", r.early_timers);
    s.add("fault.weak_cas_failure", r.cas_failures);
    let t = &o.stats;
    s.add("fault.spurious_poll", t.spurious);
    s.add("fault.stale_wake_ignored", t.stale_wakes);
    s.add("fault.actor_abort", t.aborts);
    s.add("fault.user_panic", t.panics);
    s.add("fault.receive_cancelled", t.recv_cancels);
    s.add("fault.dispatch_cancelled", t.disp_cancels);
    s.add("fault.send_cancelled", t.send_cancels);
    s.add("fault.timeout_cancel", t.timeouts);
    s.add("fault.mailbox_dropped", t.mb_drops);
    s.add("load.polls", t.polls);
    s.add("load.wakes", t.wakes);
    s.add("load.ops", t.ops);
    s.add("load.handlers", t.handlers);
    s.add("load.broadcasts", t.broadcasts);
    s.add("load.stop_requests", t.stops);
    s.add("load.actors_run_by_spawn_helpers", t.helpers);
    s.add("load.sequential_reference_executions", t.lin[0]);
    s.add("load.concurrent_executions_compared", t.lin[1]);
    s.add("reach.order_observable", t.lin[2]);
    s.add("reach.compared_with_split_orders", t.lin[3]);
    s.add("load.events", o.log.len() as u64);
    use crate::world::{Ev, Out};
    for e in &o.log {
        if let Ev::PollE { out, .. } = e {
            match out {
                Out::Pending => s.add("reach.op_pending", 1),
                Out::Disconnected => s.add("reach.disconnected", 1),
                Out::Interrupted => s.add("reach.interrupted", 1),
                Out::Gone => s.add("reach.scoped_gone", 1),
                _ => {}
            }
        }
        match e {
            Ev::RecvDropE { .. } => s.add("reach.recv_dropped", 1),
            Ev::StopCb { .. } => s.add("reach.actor_stopped", 1),
            Ev::NestE { left: false, .. } => s.add("reach.select_stopped", 1),
            Ev::UpE { some: false, .. } => s.add("reach.upgrade_failed", 1),
            Ev::HEnd { how: crate::world::How::Dropped, .. } => s.add("reach.handler_cancelled", 1),
            _ => {}
        }
    }
}

fn parse_kv(args: &[String]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i + 1 < args.len() {
        m.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    m
}

fn limit_memory(gb: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let l = [gb << 30, gb << 30];
    // RLIMIT_AS
    unsafe {
        setrlimit(9, &l);
    }
    let c = [0u64, 0];
    // RLIMIT_CORE
    unsafe {
        setrlimit(4, &c);
    }
}

/// `worker --prop P --seed S --start I --stride K --count N --wall MS`
pub fn worker(args: &[String]) -> i32 {
    let kv = parse_kv(args);
    let prop = kv["prop"].clone();
    let base: u64 = kv["seed"].parse().unwrap();
    let start: u64 = kv["start"].parse().unwrap();
    let stride: u64 = kv["stride"].parse().unwrap();
    let end: u64 = kv["end"].parse().unwrap();
    let wall = Duration::from_millis(kv["wall"].parse().unwrap());
    let keep_going = kv.contains_key("all");
    limit_memory(6);
    let t0 = Instant::now();
    let mut sums = Sums::default();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut logs: BTreeSet<u64> = BTreeSet::new();
    let stdout = std::io::stdout();
    let mut i = start;
    let mut nontrivial = 0u64;
    while i < end {
        if t0.elapsed() > wall {
            break;
        }
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "R {}", i);
            let _ = o.flush();
        }
        let c = Case::new(base, &prop, i);
        let r = c.run();
        account(&mut sums, &r.out, c.mode);
        if c.mode == Mode::Churn || r.out.stats.handlers > 0 && (r.out.rep.switches > 2 || c.mode != Mode::Conc) {
            if scheds.insert(r.out.rep.sched_hash) | logs.insert(r.out.log_hash) {
                nontrivial += 1;
            }
        }
        let mut seen = BTreeSet::new();
        for v in &r.bad {
            let mine = v.props.iter().any(|p| *p == prop);
            if (mine || keep_going) && seen.insert(v.rule) {
                let mut o = stdout.lock();
                let _ = writeln!(o, "V {} {} {} {}", i, v.rule, v.props.join(","), v.msg.replace('\n', " "));
                let _ = o.flush();
            }
        }
        for v in &r.bad {
            if !v.props.iter().any(|p| *p == prop) {
                sums.add("other.violations_of_other_properties", 1);
                break;
            }
        }
        if hit(&r.bad, &prop).is_some() && !keep_going {
            break;
        }
        i += stride;
    }
    let mut o = stdout.lock();
    let _ = writeln!(o, "D {}", nontrivial);
    for (k, v) in &sums.n {
        let _ = writeln!(o, "S {} {}", k, v);
    }
    for h in scheds {
        let _ = writeln!(o, "H {:x}", h);
    }
    let _ = writeln!(o, "E");
    let _ = o.flush();
    0
}

/// Runs the case in a file; exit 1 if the rule is violated for the property.
pub fn one(args: &[String]) -> i32 {
    let s = std::fs::read_to_string(&args[0]).unwrap();
    limit_memory(6);
    let (c, rule, _) = Case::parse(&s).expect("bad replay file");
    let r = c.run();
    match r.bad.iter().find(|v| v.rule == rule && (v.props.contains(&c.prop) || any_prop())) {
        Some(v) => {
            println!("{}", v.msg);
            1
        }
        None => 0,
    }
}

fn try_case(c: &Case, rule: &str) -> Option<(CaseOut, String)> {
    let r = c.run();
    let m = r
        .bad
        .iter()
        .find(|v| v.rule == rule && (v.props.contains(&c.prop) || any_prop()))
        .map(|v| v.msg.clone());
    m.map(|m| (r, m))
}

/// `minimise --prop P --seed S --index I --rule R --out FILE --wall MS`
pub fn minimise(args: &[String]) -> i32 {
    let kv = parse_kv(args);
    let prop = kv["prop"].clone();
    let base: u64 = kv["seed"].parse().unwrap();
    let index: u64 = kv["index"].parse().unwrap();
    let rule = kv["rule"].clone();
    let out = kv["out"].clone();
    let wall = Duration::from_millis(kv["wall"].parse().unwrap());
    limit_memory(8);
    let t0 = Instant::now();
    let mut best = Case::new(base, &prop, index);
    let Some((r, mut msg)) = try_case(&best, &rule) else {
        eprintln!("the violation did not reproduce");
        return 3;
    };
    best.choices = Some(r.out.rep.choices.clone());
    let write = |c: &Case, msg: &str| {
        let r = c.run();
        let mut s = c.to_text(&rule, msg, r.out.log_hash);
        s += "---\n";
        s += &describe(c, &r);
        std::fs::write(&out, s).unwrap();
    };
    write(&best, &msg);
    // Leave out parts of the program.
    let mut left: Vec<u32> = best.units();
    let mut size = (left.len() / 2).max(1);
    let half = wall.mul_f32(0.7);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < left.len() && t0.elapsed() < half {
            let cut: Vec<u32> = left[i..(i + size).min(left.len())].to_vec();
            let mut c = best.clone();
            c.drop.extend(&cut);
            let mut found = None;
            if let Some((r, m)) = try_case(&c, &rule) {
                found = Some((c.sched, r, m));
            } else {
                for k in 0..40 {
                    if t0.elapsed() > half {
                        break;
                    }
                    let mut d = c.clone();
                    d.choices = None;
                    d.sched = mix(c.seed ^ 77 ^ ((k as u64) << 32));
                    if let Some((r, m)) = try_case(&d, &rule) {
                        found = Some((d.sched, r, m));
                        break;
                    }
                }
            }
            if let Some((s, r, m)) = found {
                c.sched = s;
                c.choices = Some(r.out.rep.choices.clone());
                best = c;
                msg = m;
                left.retain(|x| !cut.contains(x));
                changed = true;
            } else {
                i += size;
            }
        }
        if t0.elapsed() > half {
            break;
        }
        if size == 1 && !changed {
            break;
        }
        if !changed || size > 1 {
            size = (size / 2).max(1);
        }
    }
    // Leave out decisions.
    let mut ch = best.choices.clone().unwrap();
    let mut size = (ch.len() / 2).max(1);
    'o: loop {
        let mut i = 0;
        let mut changed = false;
        while i < ch.len() {
            if t0.elapsed() > wall {
                break 'o;
            }
            let mut t = ch.clone();
            t.drain(i..(i + size).min(ch.len()));
            let mut c = best.clone();
            c.choices = Some(t);
            if let Some((r, m)) = try_case(&c, &rule) {
                // Keep only the decisions that were used.
                let used = r.out.rep.choices.clone();
                c.choices = Some(if used.len() < ch.len() { used } else { c.choices.unwrap() });
                ch = c.choices.clone().unwrap();
                best = c;
                msg = m;
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !changed {
            break;
        }
        if !changed {
            size = (size / 2).max(1);
        }
    }
    if try_case(&best, &rule).is_none() {
        eprintln!("the minimised case did not reproduce");
        return 3;
    }
    write(&best, &msg);
    0
}

/// Human-readable account of a run.
pub fn describe(c: &Case, r: &CaseOut) -> String {
    let mut s = String::new();
    match c.mode {
        Mode::Conc => {
            let p = prog::without(&prog::generate(&c.prop, c.seed), &c.drop);
            s += &describe_prog(&p, &r.out);
        }
        Mode::Churn => {
            let p = churn::without(&churn::generate(&c.prop, c.seed), &c.drop);
            s += &churn::describe(&p);
        }
        Mode::Lin => {
            let p = lin::without(&lin::generate(&c.prop, c.seed), &c.drop);
            s += &lin::describe(&p);
        }
        Mode::Lock => {
            let p = lock::without(&lock::generate(&c.prop, c.seed), &c.drop);
            s += &lock::describe(&p, &r.out);
        }
    }
    s += "violations:\n";
    for v in &r.bad {
        s += &format!("  [{}] {} ({})\n", v.rule, v.msg, v.props.join(","));
    }
    s += "events:\n";
    for (i, e) in r.out.log.iter().enumerate() {
        s += &format!("  {:4} {:?}\n", i, e);
    }
    if !r.out.rep.stuck.is_empty() {
        s += &format!("never finished: {:?}\n", r.out.rep.stuck);
    }
    s
}

fn describe_prog(p: &prog::Prog, o: &RunOut) -> String {
    use crate::world::Ev;
    let mut s = format!(
        "program: capacity {:?}, {} mailboxes, actors started at once {:?}, keep a strong address {}, strategy {:?}\n",
        p.cap, p.mbs, p.start_now, p.keep_strong, p.strategy
    );
    let mut used: BTreeSet<u32> = BTreeSet::new();
    let mut acts: BTreeSet<u32> = BTreeSet::new();
    for e in &o.log {
        match e {
            Ev::OpNew { m, .. } => {
                used.insert(*m);
            }
            Ev::Note { s, a, .. } if *s == "actor on mailbox" => {
                acts.insert(*a as u32);
            }
            _ => {}
        }
    }
    for (i, c) in p.clients.iter().enumerate() {
        s += &format!("  client {} with {:?}\n", i, c.slots);
        for o in &c.ops {
            s += &format!("    {:?}\n", o.k);
        }
    }
    for (i, m) in p.msgs.iter().enumerate() {
        if used.contains(&(i as u32)) {
            s += &format!("  message {}: {:?}\n", i, m);
        }
    }
    for (i, a) in p.actors.iter().enumerate() {
        if acts.contains(&(i as u32)) {
            s += &format!("  actor {}: {:?}\n", i, a);
        }
    }
    s
}

/// `replay FILE`: exit 1 if the violation reproduces exactly, 0 if not.
pub fn replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[0]).expect("cannot read the replay file");
    let (c, rule, hash) = Case::parse(&text).expect("not a replay file");
    if rule == "crash" || rule == "hang" {
        // These end the process: try in one of its own.
        if crate::supervise::fatal(&args[0], &rule) {
            println!("[{}] the run ends in a {} again", rule, rule);
            println!("VIOLATION property={} replay={}", c.prop, args[0]);
            return 1;
        }
        println!("the violation [{}] does not occur", rule);
        return 0;
    }
    let r = c.run();
    let exact = r.out.log_hash == hash;
    match r.bad.iter().find(|v| v.rule == rule && (v.props.contains(&c.prop) || any_prop())) {
        Some(v) => {
            println!("[{}] {}", v.rule, v.msg);
            println!(
                "event log {:016x}: {}",
                r.out.log_hash,
                if exact { "identical to the recorded one" } else { "differs from the recorded one" }
            );
            if args.iter().any(|a| a == "-v") {
                print!("{}", describe(&c, &r));
            }
            println!("VIOLATION property={} replay={}", c.prop, args[0]);
            1
        }
        None => {
            println!("the violation [{}] does not occur (event log {:016x})", rule, r.out.log_hash);
            0
        }
    }
}

/// `hashes --prop P --seed S --start A --end B`: one line per run.
pub fn hashes(args: &[String]) -> i32 {
    let kv = parse_kv(args);
    let prop = kv["prop"].clone();
    let base: u64 = kv["seed"].parse().unwrap();
    let start: u64 = kv["start"].parse().unwrap();
    let end: u64 = kv["end"].parse().unwrap();
    let backwards = kv.get("order").map_or(false, |o| o == "backwards");
    for k in start..end {
        let i = if backwards { end - 1 - (k - start) } else { k };
        let c = Case::new(base, &prop, i);
        let r = c.run();
        println!(
            "{} {} {:016x} {:016x} {} {} {}",
            i,
            c.mode.name(),
            r.out.log_hash,
            r.out.rep.sched_hash,
            r.out.rep.steps,
            r.out.rep.n_choices,
            r.bad.len()
        );
    }
    0
}

/// `show --prop P --seed S --index I`
pub fn show(args: &[String]) -> i32 {
    let kv = parse_kv(args);
    let c = Case::new(
        kv["seed"].parse().unwrap(),
        &kv["prop"],
        kv["index"].parse().unwrap(),
    );
    let r = c.run();
    print!("{}", describe(&c, &r));
    0
}

#[allow(dead_code)]
fn unused() -> Violation {
    from_failure("", "")
}

/// For development: minimise and replay violations of other properties, too.
fn any_prop() -> bool {
    std::env::var_os("XSIM_ANY").is_some()
}
