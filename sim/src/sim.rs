//! Per-thread simulation state: tape, trace, invariants, fault and probe counters, scheduler hook.

use crate::tape::Tape;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Violation classes. Each property's check reports the classes that belong to it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Class {
    /// Input cursor wrong after a successful decode.
    Cursor,
    /// Input cursor wrong after a rejected but well formed value.
    CursorRejected,
    /// The consumer was shown something the bytes do not say.
    Shown,
    /// The consumer was shown something wrong after it had rejected something.
    ShownAfterReject,
    /// Success although the bytes are not a valid encoding.
    AcceptedBad,
    /// Error although the bytes are a valid encoding and nobody objected.
    RefusedGood,
    /// The consumer's error was replaced or lost.
    Masked,
    /// The value returned is not the one the consumer returned.
    Token,
    /// Container bookkeeping (remaining, names, cursors) wrong.
    Handle,
    /// A kept item handle gives something else than in place.
    Deferred,
    /// Typed value wrong.
    Typed,
    /// Typed decode accepted something that does not fit.
    TypedAccepted,
    /// Typed decode refused something that fits.
    TypedRefused,
    /// Error does not name cause or place.
    ErrorInfo,
    /// Resolver fault not reported as such.
    ResolverError,
    /// Field-list decode wrong.
    Fields,
    /// Panic escaped from the library.
    Panic,
    /// Step or recursion budget exceeded.
    Work,
    /// Allocation bound exceeded.
    Memory,
    /// Value leaked, dropped twice or lost.
    DropOnce,
    /// Memory retained after the result was dropped.
    Retained,
    /// Outcome depends on something else that ran.
    Isolation,
    /// Process died or hung.
    Crash,
    Hang,
    /// Bug in the harness itself: never reported as a violation.
    Harness,
}

pub struct Viol {
    pub class: Class,
    pub msg: String,
}

/// What the consumer may do in this run (weights for actions; 0 = never).
#[derive(Clone, Debug)]
pub struct Acts {
    pub decode: u32,
    pub ignore: u32,
    pub iterate: u32,
    pub stop: u32,
    pub skip: u32,
    pub reject: u32,
    pub tolerate: bool,
    pub wrap: u32,
    pub dynamic: u32,
    pub as_tuple: u32,
    pub typed: u32,
    pub takeover: u32,
    pub panic: u32,
    pub keep: u32,
    pub nested: u32,
    pub query: u32,
    pub overrun: bool,
}
impl Acts {
    pub fn plain() -> Acts {
        Acts {
            decode: 20,
            ignore: 0,
            iterate: 0,
            stop: 0,
            skip: 0,
            reject: 0,
            tolerate: false,
            wrap: 0,
            dynamic: 0,
            as_tuple: 0,
            typed: 0,
            takeover: 0,
            panic: 0,
            keep: 0,
            nested: 0,
            query: 0,
            overrun: false,
        }
    }
}

pub struct Sim {
    pub tape: Tape,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub step_limit: u64,
    /// Parts of generated values so far.
    pub nodes: u64,
    pub viol: Option<Viol>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub acts: Acts,
    pub next_id: u64,
    /// Something was rejected by the consumer earlier in this run.
    pub rejected: bool,
    pub frozen: u32,
    pub sched: Option<(Arc<crate::sched::Sched>, usize)>,
    pub nested_depth: u32,
    pub nontrivial: bool,
    pub resolves: u64,
    pub callbacks: u64,
    pub transient_at: Option<(u64, u8)>,
    pub transient_fired: bool,
    /// Some list has items that occupy no bytes: what a decode does there is not bounded by the input (known finding).
    pub zero_list: bool,
    /// Damaged lengths are mostly around and beyond 32 bits.
    pub wide: bool,
    pub label: &'static str,
}

impl Sim {
    pub fn new(tape: Tape, trace_on: bool) -> Sim {
        Sim {
            tape,
            trace_on,
            trace: vec![],
            hash: 0xcbf29ce484222325,
            steps: 0,
            step_limit: 20_000_000,
            nodes: 0,
            viol: None,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            acts: Acts::plain(),
            next_id: 1,
            rejected: false,
            frozen: 0,
            sched: None,
            nested_depth: 0,
            nontrivial: false,
            resolves: 0,
            callbacks: 0,
            transient_at: None,
            transient_fired: false,
            zero_list: false,
            wide: false,
            label: "",
        }
    }
}

thread_local! {
    static CUR: RefCell<Option<Box<Sim>>> = const { RefCell::new(None) };
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install(s: Sim) {
    CUR.with(|c| *c.borrow_mut() = Some(Box::new(s)));
}
pub fn uninstall() -> Sim {
    *CUR.with(|c| c.borrow_mut().take()).expect("no sim installed")
}
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    crate::alloc::pause(|| CUR.with(|c| f(c.borrow_mut().as_mut().expect("no sim on this thread"))))
}
pub fn active() -> bool {
    CUR.with(|c| c.borrow().is_some())
}

/// A choice in 0..n; 0 is always the plainest.
pub fn draw(n: u64) -> u64 {
    with(|s| s.tape.below(n.max(1)))
}
pub fn draw64() -> u64 {
    with(|s| s.tape.below(0))
}
pub fn chance(num: u64, den: u64) -> bool {
    // 0 (the plainest draw) must mean "no".
    num > 0 && draw(den) >= den - num
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[draw(v.len() as u64) as usize]
}
/// Pick an index by weight; index 0 first.
pub fn weighted(w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut x = draw(total.max(1));
    for (i, n) in w.iter().enumerate() {
        if x < *n as u64 {
            return i;
        }
        x -= *n as u64;
    }
    0
}

/// Record an event: code plus two numbers. Never draws, never reads a clock.
pub fn ev(what: &'static str, a: u64, b: u64) {
    with(|s| {
        s.steps += 1;
        for x in [what.as_ptr() as u64 & 0, what.len() as u64, hash_str(what), a, b] {
            s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(5);
        }
        if s.trace_on && s.trace.len() < 4000 {
            let t = s.sched.as_ref().map(|x| format!("task{} ", x.1)).unwrap_or_default();
            s.trace.push(format!("{t}{what} {a} {b}"));
        }
    })
}
/// Make the execution's hash depend on some data too.
pub fn content(b: &[u8]) {
    let h = b.iter().fold(b.len() as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    with(|s| s.hash = (s.hash ^ h).wrapping_mul(0x100000001b3).rotate_left(5));
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))
}
pub fn note(f: impl FnOnce() -> String) {
    if with(|s| s.trace_on && s.trace.len() < 4000) {
        let m = crate::alloc::pause(f);
        with(|s| {
            let t = s.sched.as_ref().map(|x| format!("task{} ", x.1)).unwrap_or_default();
            s.trace.push(format!("{t}{m}"))
        });
    }
}
pub fn fault(k: &'static str) {
    with(|s| {
        s.nontrivial = true;
        *s.faults.entry(k).or_insert(0) += 1
    });
    ev(k, 0, 0);
}
pub fn probe(k: &'static str) {
    with(|s| *s.probes.entry(k).or_insert(0) += 1);
}
pub fn fail(class: Class, msg: impl FnOnce() -> String) {
    if with(|s| s.viol.is_none() && s.frozen == 0) {
        let m = crate::alloc::pause(msg);
        with(|s| {
            if s.trace_on {
                s.trace.push(format!("VIOLATION {class:?}: {m}"));
            }
            let m = if s.label.is_empty() { m } else { format!("[{}] {m}", s.label) };
            s.viol = Some(Viol { class, msg: m })
        });
    }
}
pub fn failed() -> bool {
    with(|s| s.viol.is_some())
}
pub fn fresh_id() -> u64 {
    with(|s| {
        s.next_id += 1;
        s.next_id
    })
}

/// Budget panic payload.
pub struct StepLimit;
/// Panic payload: what was to be generated is more than a run has time for. The run is skipped.
pub struct TooBig;
/// Panic payload thrown by the simulated consumer.
pub struct ConsumerPanic(pub u64);

/// Called at every seam crossing (lookup, callback): count, check the budget, maybe switch task.
pub fn seam() {
    let sched = with(|s| {
        s.steps += 1;
        if s.steps > s.step_limit {
            s.steps = 0;
            if s.zero_list {
                std::panic::panic_any(TooBig);
            }
            std::panic::panic_any(StepLimit);
        }
        s.sched.clone()
    });
    if let Some((sc, me)) = sched {
        sc.yield_now(me);
    }
}
