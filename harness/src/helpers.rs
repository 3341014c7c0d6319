//! The spawn helpers, on stand-ins of their executors which hand every task to the simulated executor
//! (builds with the feature `helpers`, for C27).
//!
//! Oracle: the task in which an actor runs belongs to the executor the helper is named after; the address
//! returned is that of the mailbox; and everything else is as when the same task is spawned by hand (the
//! same program, without the helpers, under the same seed).

use crate::act::*;
use crate::world::*;
use xtra::Mailbox;

/// How actors that are run by `xtra::run` get started.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Via {
    /// A task for a future made by the caller.
    #[default]
    Hand,
    /// The same, but everything around it is done as in `Helper`.
    Reference(u64),
    Helper(u64),
}

/// Called within the callbacks of an actor.
#[cfg(not(feature = "helpers"))]
pub fn on_executor(_: ActorId) {}

#[cfg(not(feature = "helpers"))]
pub fn start(_: &LoopKind, mailbox: Mailbox<Act>, act: Act) -> Result<(), (Mailbox<Act>, Act)> {
    Err((mailbox, act))
}

#[cfg(feature = "helpers")]
pub use on::*;

#[cfg(feature = "helpers")]
mod on {
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    use std::rc::Rc;

    use spin::sim;

    use super::*;
    use crate::exec;
    use crate::rng::{mix, Rng};

    #[derive(Default)]
    struct St {
        /// An actor was given to a helper, which has not spawned anything yet.
        pending: Option<ActorId>,
        /// The executor each actor has to run on.
        want: BTreeMap<ActorId, &'static str>,
        /// Fiber and executor of each task.
        tasks: Vec<(u32, &'static str)>,
    }

    thread_local! {
        static ST: RefCell<St> = RefCell::default();
    }

    const NAMES: [&str; 4] = ["tokio", "async_std", "smol", "wasm_bindgen"];

    pub fn reset() {
        ST.with(|s| *s.borrow_mut() = St::default());
        spin::tasks::install(submit, cancel);
    }

    fn submit(executor: &'static str, f: Fut) -> u32 {
        let actor = ST.with(|s| s.borrow_mut().pending.take());
        let t = match actor {
            Some(id) => run_actor(id, f, Rc::new(RefCell::new(0))),
            None => crate::world::spawn(format!("on {}", executor), f, None, None),
        };
        let fid = with(|w| w.tasks[t as usize].fid.get());
        ST.with(|s| s.borrow_mut().tasks.push((fid, executor)));
        log(Ev::Note {
            s: executor,
            a: actor.map_or(u64::MAX, |a| a as u64),
            b: 0,
        });
        // Another worker may take it up at once.
        sim::point();
        t
    }

    fn cancel(t: u32) {
        if !with(|w| w.tasks[t as usize].done.get()) {
            sim::fail("C27", "the task of an actor was cancelled by the helper that spawned it");
        }
    }

    pub fn on_executor(id: ActorId) {
        let Some((want, have)) = ST.with(|s| {
            let s = s.borrow();
            let me = sim::current_or_main();
            let have = s.tasks.iter().find(|t| t.0 == me).map_or("no", |t| t.1);
            s.want.get(&id).map(|w| (*w, have))
        }) else {
            return;
        };
        if want != have {
            sim::fail(
                "C27",
                &format!("actor {} was given to spawn_{} but runs on {} executor", id, want, have),
            );
        }
    }

    pub fn start(kind: &LoopKind, mailbox: Mailbox<Act>, act: Act) -> Result<(), (Mailbox<Act>, Act)> {
        let (seed, by_hand) = match via() {
            Via::Hand => return Err((mailbox, act)),
            Via::Reference(s) => (s, true),
            Via::Helper(s) => (s, false),
        };
        if !matches!(kind, LoopKind::Run) {
            return Err((mailbox, act));
        }
        let weak = mailbox.address();
        let Some(mut h) = upgrade_weak(&weak) else {
            return Err((mailbox, act));
        };
        let Some(Any::S(address)) = h.a.take() else { unreachable!() };
        let id = act.id;
        let mut r = Rng::new(mix(seed ^ (id as u64 + 77)));
        let k = r.below(NAMES.len() as u64) as usize;
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.pending = Some(id);
            s.want.insert(id, NAMES[k]);
        });
        let address = if by_hand {
            submit(NAMES[k], Box::pin(async move {
                xtra::run(mailbox, act).await;
            }));
            address
        } else {
            with(|w| w.stats.helpers += 1);
            match k {
                0 => xtra::spawn_tokio(act, (address, mailbox)),
                1 => xtra::spawn_async_std(act, (address, mailbox)),
                2 => xtra::spawn_smol(act, (address, mailbox)),
                _ => xtra::spawn_wasm_bindgen(act, (address, mailbox)),
            }
        };
        if ST.with(|s| s.borrow_mut().pending.take()).is_some() {
            sim::fail("C27", &format!("spawn_{} did not spawn a task for actor {}", NAMES[k], id));
        }
        if address.downgrade() != weak {
            sim::fail("C27", &format!("spawn_{} returned the address of something else", NAMES[k]));
        }
        h.a = Some(Any::S(address));
        // Who spawned the actor keeps its address for a while.
        let wait = r.below(4) as u32;
        if wait > 0 {
            exec::task("spawner", async move {
                YieldN(wait - 1).await;
                drop(h);
            });
        }
        Ok(())
    }
}
