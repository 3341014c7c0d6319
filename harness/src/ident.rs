//! What addresses and message channels of the same and of different mailboxes say about each other
//! (equality, order, hash), at any moment of a run.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

use crate::act::Any;

/// What was seen in this run.
#[derive(Default)]
struct Seen {
    /// How two mailboxes compare.
    order: BTreeMap<(u32, u32), Ordering>,
    /// By mailbox, strength and type (all addresses can be equal to each other).
    hashes: BTreeMap<(u32, bool, u8), u64>,
}

thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}

pub fn reset() {
    SEEN.with(|s| *s.borrow_mut() = Seen::default());
}

/// A handle, its mailbox, and whether it is strong.
pub type Id<'a> = (&'a Any, u32, bool);

macro_rules! pairs {
    ($a:expr, $b:expr, $x:ident, $y:ident, $both:expr, $addr:expr, $chan:expr) => {
        match ($a, $b) {
            (Any::S($x), Any::S($y)) => $both,
            (Any::S($x), Any::W($y)) => $addr,
            (Any::S($x), Any::E($y)) => $addr,
            (Any::W($x), Any::S($y)) => $addr,
            (Any::W($x), Any::W($y)) => $both,
            (Any::W($x), Any::E($y)) => $addr,
            (Any::E($x), Any::S($y)) => $addr,
            (Any::E($x), Any::W($y)) => $addr,
            (Any::E($x), Any::E($y)) => $both,
            (Any::CS($x), Any::CS($y)) => $chan,
            (Any::CW($x), Any::CW($y)) => $chan,
            (Any::CE($x), Any::CE($y)) => $chan,
            _ => None,
        }
    };
}

fn same_actor(a: &Any, b: &Any) -> Option<bool> {
    match (a, b) {
        (Any::CS(x), Any::CW(y)) => Some(x.same_actor(y)),
        (Any::CS(x), Any::CE(y)) => Some(x.same_actor(y)),
        (Any::CW(x), Any::CS(y)) => Some(x.same_actor(y)),
        (Any::CW(x), Any::CE(y)) => Some(x.same_actor(y)),
        (Any::CE(x), Any::CS(y)) => Some(x.same_actor(y)),
        (Any::CE(x), Any::CW(y)) => Some(x.same_actor(y)),
        _ => pairs!(
            a,
            b,
            x,
            y,
            Some(x.same_actor(y)),
            Some(x.same_actor(y)),
            Some(x.same_actor(y))
        ),
    }
}

#[allow(clippy::partialeq_ne_impl)]
fn eq(a: &Any, b: &Any) -> Option<(bool, bool)> {
    pairs!(
        a,
        b,
        x,
        y,
        Some((x == y, x != y)),
        Some((x == y, x != y)),
        Some((x == y, x != y))
    )
}

/// The partial order, and the total one if there is one.
fn order(a: &Any, b: &Any) -> Option<(Option<Ordering>, Option<Ordering>)> {
    pairs!(
        a,
        b,
        x,
        y,
        Some((x.partial_cmp(y), Some(x.cmp(y)))),
        Some((x.partial_cmp(y), None)),
        {
            let _ = (x, y);
            None
        }
    )
}

fn hash(a: &Any) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    match a {
        Any::S(a) => a.hash(&mut s),
        Any::W(a) => a.hash(&mut s),
        Any::E(a) => a.hash(&mut s),
        Any::CS(a) => a.hash(&mut s),
        Any::CW(a) => a.hash(&mut s),
        Any::CE(a) => a.hash(&mut s),
    }
    s.finish()
}

fn class(a: &Any) -> u8 {
    match a {
        Any::S(_) | Any::W(_) | Any::E(_) => 0,
        Any::CS(_) => 1,
        Any::CW(_) => 2,
        Any::CE(_) => 3,
    }
}

/// Compares each of the handles with each other and with what was seen before.
pub fn check(hs: &[Id<'_>]) -> Option<String> {
    for (a, ma, sa) in hs {
        let h = hash(a);
        let old = SEEN.with(|s| {
            let mut s = s.borrow_mut();
            *s.hashes.entry((*ma, *sa, class(a))).or_insert(h)
        });
        if old != h {
            return Some("equal handles hash differently".into());
        }
        for (b, mb, sb) in hs {
            let same = ma == mb;
            if let Some(r) = same_actor(a, b) {
                if r != same {
                    return Some(format!(
                        "same_actor {} for handles of {} mailbox{}",
                        r,
                        if same { "one" } else { "different" },
                        if same { "" } else { "es" }
                    ));
                }
            }
            let kinds = format!(
                "{} handles of {}",
                if sa == sb { "equally strong" } else { "differently strong" },
                if same { "one mailbox" } else { "different mailboxes" },
            );
            if let Some((is, isnt)) = eq(a, b) {
                if is != (same && sa == sb) || is == isnt {
                    return Some(format!("equality {}, inequality {} for {}", is, isnt, kinds));
                }
            }
            if let Some((part, total)) = order(a, b) {
                let want = if same {
                    Some(sa.cmp(sb))
                } else {
                    SEEN.with(|s| s.borrow().order.get(&(*ma, *mb)).copied())
                };
                let Some(got) = part else {
                    return Some(format!("no order between {}", kinds));
                };
                if total.map_or(false, |t| t != got) {
                    return Some(format!("the orders disagree, {:?} and {:?}, for {}", got, total, kinds));
                }
                match want {
                    Some(w) if w != got => {
                        return Some(format!("order {:?} instead of {:?} for {}", got, w, kinds));
                    }
                    None if got == Ordering::Equal => {
                        return Some(format!("order Equal for {}", kinds));
                    }
                    None => SEEN.with(|s| {
                        let mut s = s.borrow_mut();
                        s.order.insert((*ma, *mb), got);
                        s.order.insert((*mb, *ma), got.reverse());
                    }),
                    _ => {}
                }
            }
        }
    }
    // Between three mailboxes there must be no circle.
    SEEN.with(|s| {
        let s = s.borrow();
        for ((a, b), o) in &s.order {
            if *o != Ordering::Less {
                continue;
            }
            for ((b2, c), o2) in s.order.range((*b, 0)..=(*b, u32::MAX)) {
                debug_assert_eq!(b, b2);
                if *o2 == Ordering::Less && s.order.get(&(*a, *c)) == Some(&Ordering::Greater) {
                    return Some("the order of three mailboxes goes round in a circle".into());
                }
            }
        }
        None
    })
}
