//! The check command: worker processes, watchdog, minimisation, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use crate::runner::{mode_of, Case};

/// Processor time a worker may spend on one run before it counts as hanging.
const HANG_CPU: f64 = 12.0;
/// Wall-clock time without progress after which a worker is inspected.
const HANG_WALL: Duration = Duration::from_secs(20);

struct Opts {
    prop: String,
    tier: String,
    seed: u64,
    jobs: u64,
    runs: u64,
    wall: u64,
    evidence: String,
    replays: String,
    level: String,
}

fn opts(args: &[String]) -> Opts {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 0;
    while i + 1 < args.len() {
        m.insert(args[i].trim_start_matches("--").into(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| m.get(k).cloned().unwrap_or_else(|| d.to_string());
    Opts {
        prop: get("prop", "C01"),
        tier: get("tier", "quick"),
        seed: get("seed", "1").parse().unwrap_or(1),
        jobs: get("jobs", "8").parse().unwrap(),
        runs: get("runs", "1000").parse().unwrap(),
        wall: get("wall", "60").parse().unwrap(),
        evidence: get("evidence", "evidence.json"),
        replays: get("replays", "replays"),
        level: get("level", "exploration"),
    }
}

enum Msg {
    Line(u64, String),
    Eof(u64),
}

struct W {
    child: std::process::Child,
    cur: Option<u64>,
    last: Instant,
    cpu_at: f64,
    ended: bool,
    eof: bool,
}

/// User + system time of a child of ours.
fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let Some(p) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

#[derive(Clone, Debug)]
pub struct Found {
    pub index: u64,
    pub rule: String,
    pub msg: String,
}

fn spawn_worker(o: &Opts, id: u64, start: u64, end: u64, wall_ms: u64, tx: &mpsc::Sender<Msg>) -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args([
            "worker",
            "--prop",
            &o.prop,
            "--seed",
            &o.seed.to_string(),
            "--start",
            &start.to_string(),
            "--stride",
            &o.jobs.to_string(),
            "--end",
            &end.to_string(),
            "--wall",
            &wall_ms.to_string(),
        ])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .expect("cannot start a worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(id, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(id));
    });
    W {
        child,
        cur: None,
        last: Instant::now(),
        cpu_at: 0.0,
        ended: false,
        eof: false,
    }
}

pub fn check(args: &[String]) -> i32 {
    let o = opts(args);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(o.wall);
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..o.jobs)
        .map(|k| spawn_worker(&o, k, k, o.runs, o.wall * 1000, &tx))
        .collect();
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut distinct = 0u64;
    let mut found: Option<Found> = None;
    let mut broken: Option<String> = None;
    // One violation of this property is enough; the others finish their current run.
    while !ws.iter().all(|w| w.eof) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(id, l)) => {
                let w = &mut ws[id as usize];
                w.last = Instant::now();
                let (k, v) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "R" => {
                        w.cur = v.parse().ok();
                        w.cpu_at = -1.0;
                    }
                    "V" => {
                        let f: Vec<&str> = v.splitn(4, ' ').collect();
                        let c = Found {
                            index: f[0].parse().unwrap(),
                            rule: f[1].into(),
                            msg: f[3].into(),
                        };
                        if found.as_ref().map_or(true, |x| c.index < x.index) {
                            found = Some(c);
                        }
                    }
                    "S" => {
                        let (n, x) = v.split_once(' ').unwrap();
                        *sums.entry(n.into()).or_default() += x.parse::<u64>().unwrap();
                    }
                    "D" => distinct += v.parse::<u64>().unwrap_or(0),
                    "H" => {
                        hashes.insert(u64::from_str_radix(v, 16).unwrap());
                    }
                    "E" => w.ended = true,
                    _ => {}
                }
            }
            Ok(Msg::Eof(id)) => {
                let w = &mut ws[id as usize];
                w.eof = true;
                let st = w.child.wait();
                if !w.ended && found.is_none() {
                    match w.cur {
                        Some(i) => {
                            found = Some(Found {
                                index: i,
                                rule: "crash".into(),
                                msg: format!("the process died during the run ({:?})", st),
                            })
                        }
                        None => broken = Some(format!("a worker did not start ({:?})", st)),
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if found.is_some() {
            // Minimise the first violation seen rather than waiting for everybody.
            for w in ws.iter_mut() {
                let _ = w.child.kill();
            }
        }
        for w in ws.iter_mut().filter(|w| !w.eof) {
            if w.last.elapsed() > HANG_WALL {
                let c = cpu(w.child.id());
                if w.cpu_at < 0.0 {
                    w.cpu_at = c;
                } else if c - w.cpu_at > HANG_CPU || w.last.elapsed() > 6 * HANG_WALL {
                    let _ = w.child.kill();
                    if found.is_none() {
                        if let Some(i) = w.cur {
                            found = Some(Found {
                                index: i,
                                rule: "hang".into(),
                                msg: format!("the run does not end ({} s of processor time)", HANG_CPU),
                            });
                        }
                    }
                }
            }
        }
        let _ = deadline;
    }
    if let Some(b) = broken {
        eprintln!("xsim: {}", b);
        return 2;
    }
    let searched = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    if let Some(f) = &found {
        violations = 1;
        code = 1;
        std::fs::create_dir_all(&o.replays).unwrap();
        let path = format!("{}/{}-{}-{}.txt", o.replays, o.prop, o.seed, f.index);
        let exe = std::env::current_exe().unwrap();
        if f.rule == "crash" || f.rule == "hang" {
            minimise_fatal(&o, f, &path);
        } else {
            let st = Command::new(&exe)
                .args([
                    "minimise",
                    "--prop",
                    &o.prop,
                    "--seed",
                    &o.seed.to_string(),
                    "--index",
                    &f.index.to_string(),
                    "--rule",
                    &f.rule,
                    "--out",
                    &path,
                    "--wall",
                    "40000",
                ])
                .status();
            if !matches!(st, Ok(s) if s.success()) {
                eprintln!("xsim: minimisation of run {} failed ({:?})", f.index, st);
                if std::fs::metadata(&path).is_err() {
                    let c = Case::new(o.seed, &o.prop, f.index);
                    let _ = std::fs::write(&path, c.to_text(&f.rule, &f.msg, 0));
                }
            }
        }
        println!("run {} breaks {}: [{}] {}", f.index, o.prop, f.rule, f.msg);
        println!("VIOLATION property={} replay={}", o.prop, path);
    }
    write_evidence(&o, &sums, &hashes, distinct, violations, searched, t0.elapsed().as_secs_f64());
    if code == 0 {
        println!(
            "property {} held in {} simulated runs ({:.1} s)",
            o.prop,
            sums.get("runs").copied().unwrap_or(0),
            searched
        );
    }
    code
}

/// Does the case in the file kill or hang a process of its own?
pub fn fatal(path: &str, rule: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    let Ok(mut c) = Command::new(exe)
        .args(["one", path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return rule == "crash" && st.code().is_none(),
            Ok(None) => {}
            Err(_) => return false,
        }
        if cpu(c.id()) > HANG_CPU || t.elapsed() > 6 * HANG_WALL {
            let _ = c.kill();
            let _ = c.wait();
            return rule == "hang";
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn minimise_fatal(o: &Opts, f: &Found, path: &str) {
    let t0 = Instant::now();
    let tmp = format!("{}.try", path);
    let mut best = Case::new(o.seed, &o.prop, f.index);
    std::fs::write(path, best.to_text(&f.rule, &f.msg, 0)).unwrap();
    if f.rule == "hang" || !fatal(path, &f.rule) {
        return;
    }
    let mut left = best.units();
    let mut size = (left.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < left.len() && t0.elapsed() < Duration::from_secs(40) {
            let cut: Vec<u32> = left[i..(i + size).min(left.len())].to_vec();
            let mut ok = false;
            for k in 0..8u64 {
                let mut c = best.clone();
                c.drop.extend(&cut);
                if k > 0 {
                    c.sched = crate::rng::mix(c.seed ^ k);
                }
                std::fs::write(&tmp, c.to_text(&f.rule, &f.msg, 0)).unwrap();
                if fatal(&tmp, &f.rule) {
                    best = c;
                    ok = true;
                    break;
                }
            }
            if ok {
                left.retain(|x| !cut.contains(x));
            } else {
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    let _ = std::fs::remove_file(&tmp);
    std::fs::write(path, best.to_text(&f.rule, &f.msg, 0)).unwrap();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(
    o: &Opts,
    sums: &BTreeMap<String, u64>,
    hashes: &BTreeSet<u64>,
    distinct: u64,
    violations: u64,
    searched: f64,
    wall: f64,
) {
    let g = |k: &str| sums.get(k).copied().unwrap_or(0);
    let runs = g("runs");
    let per_hour = if searched > 0.0 { (runs as f64 / searched * 3600.0) as u64 } else { 0 };
    let group = |p: &str| {
        let v: Vec<String> = sums
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| format!("{}: {}", js(&k[p.len()..]), v))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let mut samples = vec![];
    for i in 0..2u64.min(runs) {
        let c = Case::new(o.seed, &o.prop, i);
        let r = c.run();
        let d = crate::runner::describe(&c, &r);
        let cut: String = d.lines().take(60).collect::<Vec<_>>().join("\n");
        samples.push(js(&format!("run {} (mode {}, seed {}):\n{}", i, mode_of(&o.prop, i).name(), c.seed, cut)));
    }
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"wall_s\": {:.2},\n \"violations\": {},\n",
        js(&o.prop),
        js(&o.tier),
        o.seed,
        js(&o.level),
        wall,
        violations
    );
    let _ = write!(s, " \"coverage\": {{\n");
    let _ = write!(s, "  \"evaluations\": {},\n", runs);
    let _ = write!(s, "  \"distinct_nontrivial\": {},\n", distinct);
    let _ = write!(
        s,
        "  \"rule\": {},\n",
        js("One evaluation is one simulated run (modes: conc, lock = lock-step with a reference model, lin = concurrent outcome compared with sequential executions of the same program): a program generated from the seed (capacity, mailboxes, actors with scripts, clients with operations, fault settings), executed on the real code under the seeded scheduler. Non-trivial: at least one message was handled and (concurrent runs) more than two switches between simulated threads happened. Distinct: the hash of the interleaving (sequence of switches) or of the full event log was not seen before by the same worker.")
    );
    let _ = write!(s, "  \"runs_per_hour\": {},\n", per_hour);
    let _ = write!(s, "  \"search_wall_s\": {:.2},\n", searched);
    let _ = write!(s, "  \"worker_processes\": {},\n", o.jobs);
    let _ = write!(s, "  \"distinct_interleavings\": {},\n", hashes.len());
    let _ = write!(s, "  \"simulated_ticks\": {},\n", g("sim.ticks"));
    let _ = write!(s, "  \"runs_by_mode\": {},\n", group("mode."));
    let _ = write!(s, "  \"faults_injected\": {},\n", group("fault."));
    let _ = write!(s, "  \"schedule\": {},\n", group("sched."));
    let _ = write!(s, "  \"workload\": {},\n", group("load."));
    let _ = write!(s, "  \"rare_conditions_reached\": {},\n", group("reach."));
    let _ = write!(s, "  \"other\": {},\n", group("other."));
    let _ = write!(
        s,
        "  \"components\": {},\n",
        js(if cfg!(feature = "helpers") {
            "real code: the xtra crate with its spawn helpers, catty, futures-util, futures-core, futures-sink; stubs: the spawn functions of tokio, async-std, smol and wasm-bindgen-futures, which hand tasks to the simulated executor; simulated: std::sync and std::thread as seen by xtra, the spin locks used by catty and xtra, event-listener, the executor, wakers and timers; generated: clients, messages, actors, event loops"
        } else {
            "real code: the xtra crate (all of /repo/xtra/src), catty, futures-util, futures-core, futures-sink; simulated: std::sync and std::thread as seen by xtra, the spin locks used by catty and xtra, event-listener, the executor, wakers and timers; generated: clients, messages, actors, event loops"
        })
    );
    let _ = write!(s, "  \"samples\": [{}]\n", samples.join(", "));
    let _ = write!(s, " }},\n");
    let _ = write!(
        s,
        " \"assumptions\": [{}]\n}}\n",
        [
            "memory orderings are sequentially consistent in the simulation (every atomic access is a scheduling point)",
            "the simulated locks, event-listener and std facade behave like the originals",
        ]
        .iter()
        .map(|x| js(x))
        .collect::<Vec<_>>()
        .join(", ")
    );
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, s).expect("cannot write the evidence file");
}
