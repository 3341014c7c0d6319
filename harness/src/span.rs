//! Recording tracing subscriber (instrumented build); nothing otherwise.

#[cfg(not(feature = "instr"))]
mod imp {
    use crate::world::ActorId;
    use crate::world::MsgId;

    pub fn setup() {}
    pub fn begin(_level: u32) {}
    pub fn depth() -> usize {
        0
    }
    pub fn in_sender<R>(_m: MsgId, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn on_handler(_a: ActorId, _m: MsgId, _bc: bool) {}
    pub fn dispatched(_a: ActorId) {}
    pub fn open_spans() -> usize {
        0
    }
}

#[cfg(feature = "instr")]
mod imp {
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    use spin::sim;
    use tracing::span::{Attributes, Id, Record};
    use tracing_core::span::Current;
    use tracing::{Event, Level, Metadata, Subscriber};

    use crate::world::ActorId;
    use crate::world::{log, Ev, MsgId, NO_MSG};

    struct Sp {
        parent: Option<u64>,
        refs: usize,
        msg: Option<MsgId>,
        name: &'static str,
        meta: &'static Metadata<'static>,
    }

    #[derive(Default)]
    struct State {
        next: u64,
        spans: BTreeMap<u64, Sp>,
        stacks: BTreeMap<u32, Vec<u64>>,
        level: u32,
        pending_msg: Option<MsgId>,
        /// What the dispatch future of an actor said the span of its handler is, and whether that is
        /// still to be compared.
        said: BTreeMap<ActorId, (Option<u64>, bool)>,
    }

    thread_local! {
        static ST: RefCell<State> = RefCell::new(State::default());
    }

    fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
        ST.with(|s| f(&mut s.borrow_mut()))
    }

    struct Rec;

    impl Subscriber for Rec {
        fn enabled(&self, m: &Metadata<'_>) -> bool {
            st(|s| s.level > 0 || *m.level() <= Level::INFO)
        }
        fn register_callsite(
            &self,
            _: &'static Metadata<'static>,
        ) -> tracing::subscriber::Interest {
            tracing::subscriber::Interest::sometimes()
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            let cur = sim::current_or_main();
            st(|s| {
                s.next += 1;
                let id = s.next;
                let parent = if let Some(p) = a.parent() {
                    Some(p.into_u64())
                } else if a.is_root() {
                    None
                } else {
                    s.stacks.get(&cur).and_then(|v| v.last().copied())
                };
                if let Some(p) = parent {
                    if let Some(p) = s.spans.get_mut(&p) {
                        p.refs += 1;
                    }
                }
                let msg = s.pending_msg.take();
                s.spans.insert(
                    id,
                    Sp {
                        parent,
                        refs: 1,
                        msg,
                        name: a.metadata().name(),
                        meta: a.metadata(),
                    },
                );
                Id::from_u64(id)
            })
        }
        fn record(&self, _: &Id, _: &Record<'_>) {}
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, _: &Event<'_>) {}
        fn enter(&self, id: &Id) {
            let cur = sim::current_or_main();
            st(|s| s.stacks.entry(cur).or_default().push(id.into_u64()))
        }
        fn exit(&self, id: &Id) {
            let cur = sim::current_or_main();
            st(|s| {
                let v = s.stacks.entry(cur).or_default();
                if let Some(p) = v.iter().rposition(|x| *x == id.into_u64()) {
                    v.remove(p);
                }
            })
        }
        fn clone_span(&self, id: &Id) -> Id {
            st(|s| {
                if let Some(x) = s.spans.get_mut(&id.into_u64()) {
                    x.refs += 1;
                }
            });
            id.clone()
        }
        fn try_close(&self, id: Id) -> bool {
            st(|s| {
                let mut k = id.into_u64();
                loop {
                    let (gone, parent) = match s.spans.get_mut(&k) {
                        Some(x) => {
                            x.refs -= 1;
                            (x.refs == 0, x.parent)
                        }
                        None => return false,
                    };
                    if !gone {
                        return false;
                    }
                    s.spans.remove(&k);
                    match parent {
                        Some(p) => k = p,
                        None => return true,
                    }
                }
            })
        }
        fn current_span(&self) -> Current {
            let cur = sim::current_or_main();
            st(|s| {
                match s
                    .stacks
                    .get(&cur)
                    .and_then(|v| v.last().copied())
                    .and_then(|id| s.spans.get(&id).map(|x| (id, x.meta)))
                {
                    Some((id, meta)) => Current::new(Id::from_u64(id), meta),
                    None => Current::none(),
                }
            })
        }
    }

    pub fn setup() {
        tracing::subscriber::set_global_default(Rec).unwrap();
    }

    pub fn begin(level: u32) {
        st(|s| {
            *s = State::default();
            s.next = 1000;
            s.level = level;
        })
    }

    pub fn depth() -> usize {
        let cur = sim::current_or_main();
        st(|s| s.stacks.get(&cur).map_or(0, |v| v.len()))
    }

    pub fn in_sender<R>(m: MsgId, f: impl FnOnce() -> R) -> R {
        if m == NO_MSG {
            return f();
        }
        st(|s| s.pending_msg = Some(m));
        let sp = tracing::info_span!("sender");
        let _g = sp.enter();
        f()
    }

    /// What a dispatch future said its span is, before it was polled or later.
    pub fn of_dispatch(a: ActorId, id: Option<u64>, first: bool) {
        let before = st(|s| match s.said.get(&a).copied() {
            Some((b, _)) if !first => Some(b),
            _ => {
                s.said.insert(a, (id, first));
                None
            }
        });
        if before.map_or(false, |b| b != id) {
            sim::fail("C24", "the span of a dispatch future changed");
        }
    }

    pub fn dispatched(a: ActorId) {
        st(|s| s.said.remove(&a));
    }

    /// The nearest span, from here upwards, in which a message was sent.
    fn sender_of(s: &State, mut at: Option<u64>) -> Option<(u64, MsgId)> {
        while let Some(id) = at {
            let x = s.spans.get(&id)?;
            if let Some(m) = x.msg {
                return Some((id, m));
            }
            at = x.parent;
        }
        None
    }

    pub fn on_handler(a: ActorId, m: MsgId, bc: bool) {
        let cur = sim::current_or_main();
        let bad = st(|s| {
            let first = s.stacks.get(&cur).and_then(|v| v.last().copied());
            if let Some((id, check)) = s.said.get_mut(&a) {
                let bad = *check && *id != first;
                *check = false;
                if bad {
                    return Some("the span of a dispatch future is not that of the handler".into());
                }
            }
            if s.level == 0 || bc {
                return None;
            }
            // Only the spans around the handler are left of those of a message that is being handled.
            let mut around = vec![];
            let mut at = first;
            while let Some(id) = at {
                around.push(id);
                at = s.spans.get(&id).and_then(|x| x.parent);
            }
            for id in s.spans.keys() {
                if !around.contains(id) && s.spans[id].msg.is_none() && sender_of(s, Some(*id)).map_or(false, |x| x.1 == m) {
                    return Some(format!(
                        "span {} is still open although message {} is being handled",
                        s.spans[id].name, m
                    ));
                }
            }
            None::<String>
        });
        if let Some(m) = bad {
            sim::fail("C24", &m);
        }
        let ok = st(|s| {
            let mut at = s.stacks.get(&cur).and_then(|v| v.last().copied());
            let first = at;
            while let Some(id) = at {
                match s.spans.get(&id) {
                    Some(x) => {
                        if let Some(k) = x.msg {
                            // The innermost sender span is the one that sent this message.
                            return k == m
                                && (s.level == 0
                                    || s.spans[&first.unwrap()].name == "xtra_message_handler");
                        }
                        at = x.parent;
                    }
                    None => return false,
                }
            }
            false
        });
        log(Ev::Span { m, ok });
    }

    pub fn open_spans() -> usize {
        st(|s| s.spans.len())
    }
}

pub use imp::*;
