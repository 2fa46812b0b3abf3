//! Values and errors that earlier parses returned, kept and looked at again (C16).
use crate::exec::res;
use aoc_parse::ParseError;
use simrt::sched::{loud, quiet};
use std::fmt::Debug;
use std::sync::Arc;

enum Thing {
    Value(Box<dyn Debug>),
    Error(ParseError),
}
struct Kept {
    from: String,
    thing: Option<Thing>,
    first: Look,
    looks: u32,
}
#[derive(PartialEq)]
struct Look {
    /// The message, or the value.
    text: String,
    debug: String,
    at: usize,
    source: String,
}

/// Only the token holder uses these.
static mut ON: bool = false;
static mut ALL: Vec<Arc<std::cell::UnsafeCell<Kept>>> = Vec::new();
static mut COUNT: usize = 0;
const MOST: usize = 32;

#[allow(static_mut_refs)]
fn all() -> &'static mut Vec<Arc<std::cell::UnsafeCell<Kept>>> {
    unsafe { &mut ALL }
}
pub fn on() -> bool {
    unsafe { ON }
}
pub fn keep_from_now_on() {
    unsafe { ON = true }
}

fn look(t: &Thing) -> Look {
    match t {
        Thing::Value(v) => quiet(|| Look { text: format!("ok: {v:?}"), debug: String::new(), at: 0, source: String::new() }),
        Thing::Error(e) => {
            // the library's work is simulated
            let text = loud(|| e.to_string());
            let debug = if e.source.len() <= 200 { loud(|| format!("{e:?}")) } else { String::new() };
            let l = quiet(|| Look { text: text.clone(), debug: debug.clone(), at: e.location, source: e.source.clone() });
            loud(|| drop((text, debug)));
            l
        }
    }
}

fn keep(thing: Thing) {
    let first = look(&thing);
    quiet(|| {
        let from = crate::user::with(|c| format!("task {} operation {}", c.task, c.op));
        let k = Arc::new(std::cell::UnsafeCell::new(Kept { from, thing: Some(thing), first, looks: 0 }));
        let n = unsafe { COUNT };
        unsafe { COUNT += 1 };
        let old = if all().len() < MOST {
            all().push(k);
            None
        } else {
            // the first ones stay to the end
            let h = MOST / 2;
            Some(std::mem::replace(&mut all()[h + n * 7 % h], k))
        };
        if let Some(o) = old {
            let_go(o);
        }
    });
}
/// Look at it one last time and drop it, unless somebody else is looking at it.
fn let_go(k: Arc<std::cell::UnsafeCell<Kept>>) {
    check(&k, 1);
    if let Some(k) = Arc::into_inner(k) {
        let t = k.into_inner().thing.take();
        loud(|| drop(t));
    }
}
pub fn keep_value(v: impl Debug + 'static) {
    let v: Box<dyn Debug> = quiet(|| Box::new(v));
    keep(Thing::Value(v))
}
pub fn keep_error(e: ParseError) {
    keep(Thing::Error(e))
}

fn check(k: &Arc<std::cell::UnsafeCell<Kept>>, how: usize) {
    let k = unsafe { &mut *k.get() };
    let Some(t) = &k.thing else { return };
    let now = match t {
        Thing::Error(e) if how % 3 == 0 => {
            let copy = Thing::Error(loud(|| e.clone()));
            let l = look(&copy);
            loud(|| drop(copy));
            l
        }
        t => look(t),
    };
    quiet(|| {
        k.looks += 1;
        let b = &mut res().b;
        *b.entry("kept_results_looked_at_again".into()).or_default() += 1;
        if matches!(t, Thing::Error(_)) {
            *b.entry("nontrivial".into()).or_default() += 1;
        }
        if now != k.first {
            let f = &k.first;
            let detail = if now.text != f.text {
                format!("was {:?}, now {:?}", f.text, now.text)
            } else if now.at != f.at {
                format!("{:?} was at {}, now at {}", f.text, f.at, now.at)
            } else if now.source != f.source {
                format!("{:?} carried the text {:?}, now {:?}", f.text, f.source, now.source)
            } else {
                format!("shown for debugging, it was {:?}, now {:?}", f.debug, now.debug)
            };
            let here = crate::user::with(|c| format!("task {} operation {}", c.task, c.op));
            if res().bad.len() < 20 {
                res().bad.push(("changed".into(), format!("what {} returned has changed by the time of {here} (look {} at it): {detail}", k.from, k.looks + 1)));
            }
        }
    })
}

/// Look at some of what has been returned so far. Not simulated, except for what the library does.
pub fn look_again(n: usize, salt: u64) {
    if !on() {
        return;
    }
    quiet(|| {
        for i in 0..n {
            let len = all().len();
            if len == 0 {
                return;
            }
            let x = simrt::rng::mix(salt + i as u64) as usize;
            let k = all()[x % len].clone();
            check(&k, x / 64);
            if Arc::strong_count(&k) == 1 {
                // meanwhile replaced
                let_go(k);
            }
        }
    })
}
/// Look at everything again, and let it go.
pub fn close() {
    if on() {
        quiet(|| {
            for k in std::mem::take(all()) {
                let_go(k);
            }
        })
    }
}

/// Errors may go to any thread, and be looked at from several.
#[cfg(feature = "send")]
#[allow(dead_code)]
fn may_travel() {
    fn any_thread<T: std::error::Error + Clone + Send + Sync + 'static>() {}
    any_thread::<ParseError>()
}
