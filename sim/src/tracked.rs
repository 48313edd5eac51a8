//! C10 (and the typed half of C06): element values that know whether they are alive, decoded into every
//! container, with the consumer failing or panicking at a drawn point.

use crate::alloc;
use crate::conv::{Flds, TD, TV};
use crate::engine::{set_msg, Down};
use crate::gen::{self, Hints};
use crate::props::{bomb, pick_faults, resolver};
use crate::refm::{self, interp_down, Interp};
use crate::sim::{self, draw, fail, failed, pick, probe, Class, ConsumerPanic};
use crate::src_gen::{self, SrcCfg};
use crate::ty::*;
use crate::typed::{self, Want};
use crate::visit::{unwrap_crate_err, SimErr};
use crate::zoo::*;
use codec::Compact;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{Unexpected, Visitor};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, FieldIter, IntoVisitor};
use scale_type_resolver::TypeResolver;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

const MAGIC: u64 = 0x7ac5_ed00_11fe_dead;

#[derive(Default)]
struct Ledger {
    next: u64,
    live: BTreeSet<u64>,
    visits: u64,
    fail_at: Option<u64>,
    panic_at: Option<u64>,
    /// Errors returned by the consumer, in order.
    errs: Vec<u64>,
    planned: bool,
    panicked: bool,
}
thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }
pub fn reset() {
    L.with(|l| *l.borrow_mut() = Ledger::default());
}
fn led<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    alloc::pause(|| L.with(|l| f(&mut l.borrow_mut())))
}

/// A value with an identity, a canary and memory of its own.
pub struct Tracked {
    id: u64,
    magic: u64,
    val: Box<u64>,
}
impl Tracked {
    fn new(val: u64) -> Tracked {
        let id = led(|l| {
            l.next += 1;
            l.live.insert(l.next);
            l.next
        });
        Tracked { id, magic: MAGIC, val: Box::new(val) }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic != MAGIC || !led(|l| l.live.remove(&self.id)) {
            let (id, m) = (self.id, self.magic);
            // do not free what may not be ours
            let b = std::mem::replace(&mut self.val, Box::new(0));
            std::mem::forget(b);
            if sim::active() {
                fail(Class::DropOnce, || {
                    if m != MAGIC {
                        "something that was never a value was dropped".into()
                    } else {
                        format!("value {id} dropped twice")
                    }
                });
            }
        }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new(*self.val)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        // by value, then identity: nothing is ever equal to anything else
        (*self.val, self.id).cmp(&(*o.val, o.id))
    }
}
impl Zoo for Tracked {
    fn td() -> TD {
        u64::td()
    }
    fn tv(&self) -> TV {
        TV::U(*self.val as u128)
    }
}

pub struct TV1<R>(PhantomData<R>);
impl IntoVisitor for Tracked {
    type AnyVisitor<R: TypeResolver> = TV1<R>;
    fn into_visitor<R: TypeResolver>() -> TV1<R> {
        TV1(PhantomData)
    }
}
fn own_error() -> Error {
    let id = alloc::pause(sim::fresh_id);
    led(|l| l.errs.push(id));
    sim::ev("tracked_error", id, 0);
    Error::custom(SimErr::Rej(id))
}
/// A value arrives: make it, or fail, or panic, as planned.
fn arrive(v: u128) -> Result<Tracked, Error> {
    sim::seam();
    let k = led(|l| {
        l.visits += 1;
        l.visits
    });
    sim::ev("tracked", k, v as u64);
    // a value made before the failure must not be lost either
    let t = u64::try_from(v).ok().map(Tracked::new);
    if led(|l| l.fail_at == Some(k)) {
        sim::fault("consumer_fails");
        led(|l| l.planned = true);
        return Err(own_error());
    }
    if led(|l| l.panic_at == Some(k)) {
        sim::fault("consumer_panics");
        led(|l| l.panicked = true);
        std::panic::panic_any(ConsumerPanic(k));
    }
    t.ok_or_else(own_error)
}
macro_rules! nums { ($($f:ident $t:ty;)*) => {$(
    fn $f<'s, 'r>(self, v: $t, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> {
        match u128::try_from(v) { Ok(v) => arrive(v), Err(_) => Err(own_error()) }
    }
)*}; }
impl<R: TypeResolver> Visitor for TV1<R> {
    type Value<'s, 'r> = Tracked;
    type Error = Error;
    type TypeResolver = R;
    nums! { visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128;
            visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128; }
    fn visit_composite<'s, 'r>(self, c: &mut Composite<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> {
        if c.remaining() != 1 {
            return Err(own_error());
        }
        c.decode_item(self).unwrap()
    }
    fn visit_tuple<'s, 'r>(self, c: &mut Tuple<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, Error> {
        if c.remaining() != 1 {
            return Err(own_error());
        }
        c.decode_item(self).unwrap()
    }
    /// The catch-all.
    fn visit_unexpected<'s, 'r>(self, _u: Unexpected) -> Result<Self::Value<'s, 'r>, Error> {
        sim::seam();
        probe("universal_handler_rejects");
        Err(own_error())
    }
}

named!(N3 { a: Tracked = false, #[decode_as_type(skip)] cache: Vec<u8> = true, id: Vec<Tracked> = false, value: Option<Tracked> = false });
named!(NG<T> { a: T = false, b: T = false });
unnamed!(U2(a: Tracked = false, #[codec(skip)] b: u64 = true, c: (Tracked, u8) = false));
unnamed!(U1(a: Tracked = false));
enums!(En { V0 unnamed (a: Tracked = false, b: Tracked = false), V1 named (a: Vec<Tracked> = false, id: Tracked = false), V2 unit () });

trait Held {
    fn tv(&self) -> TV;
}
impl<T: Zoo> Held for T {
    fn tv(&self) -> TV {
        Zoo::tv(self)
    }
}
type Res = Result<Box<dyn Held>, Error>;
struct Ent {
    name: &'static str,
    td: fn() -> TD,
    dec: fn(&mut &[u8], Tid, &SimResolver) -> Res,
    #[allow(clippy::type_complexity)]
    fields: Option<for<'r> fn(&mut &[u8], &mut dyn FieldIter<'r, Tid>, &'r SimResolver) -> Res>,
}
fn dec<T: Zoo + 'static>(i: &mut &[u8], t: Tid, r: &SimResolver) -> Res {
    T::decode_as_type(i, t, r).map(|v| Box::new(v) as Box<dyn Held>)
}
fn decf<'r, T: Zoo + DecodeAsFields + 'static>(i: &mut &[u8], f: &mut dyn FieldIter<'r, Tid>, r: &'r SimResolver) -> Res {
    T::decode_as_fields(i, f, r).map(|v| Box::new(v) as Box<dyn Held>)
}
/// Equal values stay: they are never equal here.
fn multi(td: TD) -> TD {
    match td {
        TD::Sorted(t, _) => TD::Sorted(Box::new(multi(*t)), false),
        TD::List(t) => TD::List(Box::new(multi(*t))),
        TD::Opt(t) => TD::Opt(Box::new(multi(*t))),
        TD::Tup(v) => TD::Tup(v.into_iter().map(multi).collect()),
        t => t,
    }
}
macro_rules! table {
    ($( $t:ty ),* ; $( $f:ty ),* $(,)?) => {
        static TABLE: &[Ent] = &[
            $(Ent { name: stringify!($t), td: || multi(<$t as Zoo>::td()), dec: dec::<$t>, fields: None },)*
            $(Ent { name: stringify!($f), td: || multi(<$f as Zoo>::td()), dec: dec::<$f>, fields: Some(decf::<$f>) },)*
        ];
    };
}
type T = Tracked;
table! {
    T, Vec<T>, VecDeque<T>, LinkedList<T>, BinaryHeap<T>, BTreeSet<T>, [T; 0], [T; 1], [T; 2], [T; 5], [T; 32],
    Box<T>, Arc<T>, Rc<T>, Compact<T>, Compact<(T,)>, Cow<'static, [T]>, Option<T>, Option<Vec<T>>, Result<T, Vec<T>>, Result<[T; 2], T>,
    Range<T>, RangeInclusive<T>, BTreeMap<String, T>, BTreeMap<String, Vec<T>>, Vec<Vec<T>>, Vec<[T; 3]>, [Vec<T>; 2], [[T; 2]; 3], [(T, T); 2],
    Vec<(T, T)>, Vec<Option<T>>, Vec<Box<T>>, Vec<N3>, Vec<En>, [En; 2], [N3; 2], VecDeque<[T; 2]>, LinkedList<(T, u8)>, BTreeSet<(T, T)>,
    BinaryHeap<(T,)>, Box<[T; 3]>, Rc<Vec<T>>, Arc<(T, T)>, Option<Box<T>>, En, [Option<T>; 4], [BTreeMap<String, T>; 2], [String; 3], Vec<String>, Box<N3>;
    (T,), (T, T), (T, u8, T), (Vec<T>, T), ([T; 2], T), (T, (T, T), Vec<T>), (T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T, T, T, T, T),
    (Option<T>, N3), N3, NG<T>, NG<Vec<T>>, NG<[T; 2]>, U2, U1, (U1, U2), (En, T),
}

fn leaves(v: &TV) -> usize {
    match v {
        TV::U(_) => 1,
        TV::L(v) | TV::V(_, v) => v.iter().map(leaves).sum(),
        TV::M(m) => m.iter().map(|x| leaves(&x.1)).sum(),
        _ => 0,
    }
}
/// How many of the plain numbers in the result are not tracked values.
fn untracked(e: &Ent, v: &TV) -> Option<usize> {
    // `u8` beside T in a few shapes
    let n = |v: &TV| match v {
        TV::L(x) => x.len(),
        _ => 0,
    };
    Some(match e.name {
        "LinkedList<(T, u8)>" => n(v),
        "(T, u8, T)" | "U2" | "(U1, U2)" => 1,
        _ => 0,
    })
}

pub fn c10() {
    run(false)
}
pub fn c06_typed() {
    run(true)
}
fn run(damage: bool) {
    let e = if draw(3) == 2 {
        loop {
            let e = pick(TABLE);
            if e.fields.is_some() || sim::with(|s| s.tape.rec.len() > 2000) {
                break e;
            }
        }
    } else {
        pick(TABLE)
    };
    let td = (e.td)();
    let mut reg = Reg::new();
    let mut hints = Hints::new();
    let cfg = match draw(4) {
        0 | 1 => SrcCfg { misfit: 0, off: 0, wrap: 3 },
        2 => SrcCfg { misfit: 8, off: 0, wrap: 3 },
        _ => SrcCfg { misfit: 4, off: 8, wrap: 3 },
    };
    let tid = src_gen::src(&mut reg, &td, &mut hints, &cfg, 0);
    let flds: Option<Vec<Fld>> = match (e.fields, reg.get(tid)) {
        (Some(_), Some(Ty::Comp(_, f))) if draw(2) == 1 => Some(f.clone()),
        (Some(_), Some(Ty::Tuple(v))) if draw(2) == 1 => Some(v.iter().map(|t| Fld { name: None, tid: *t }).collect()),
        _ => None,
    };
    let mut bytes = vec![];
    gen::gen_val(&reg, tid, false, &hints, &mut bytes);
    for _ in 0..draw(6) {
        bytes.push(draw(256) as u8);
    }
    let mut down = Down::new();
    if (damage && draw(4) > 0) || draw(5) == 4 {
        let (n, b) = interp_down(&reg, tid, &bytes, 0, &down);
        if bomb(b) {
            return;
        }
        match draw(4) {
            0 => {
                down = pick_faults(&reg, &n);
                if flds.is_some() {
                    down.remove(&tid);
                }
            }
            1 => {
                let k = draw(bytes.len() as u64 + 1) as usize;
                bytes.truncate(k);
                sim::fault("truncated");
            }
            _ => {
                let hi = bytes.len();
                let hot = gen::hot_offsets(&n);
                gen::damage(&mut bytes, 0, hi, &hot);
            }
        }
    }
    let (n, b) = match &flds {
        Some(f) => {
            let mut it = Interp { reg: &reg, bytes: &bytes, down: &down, budget: 200_000, bomb: false };
            let n = it.field_list(f, 0);
            (n, it.bomb)
        }
        None => interp_down(&reg, tid, &bytes, 0, &down),
    };
    if bomb(b) {
        return;
    }
    let w = match &flds {
        None => typed::want(&reg, &td, &n),
        Some(f) if n.ok() => {
            let cv = crate::conv::Cv { reg: &reg };
            let r = match &td {
                TD::Tup(ts) => cv.tup_items(&ts.iter().collect::<Vec<_>>(), n.items()),
                TD::One(t) => cv.tup_items(&[t], n.items()),
                TD::Struct(fl) => cv.flds(fl, Some(f), n.items(), false).map(|v| TV::V("", v)),
                _ => unreachable!(),
            };
            match r {
                Ok(v) => Want::Val(v),
                Err(m) => Want::Misfit(m),
            }
        }
        Some(_) => Want::BadBytes,
    };
    let mut res = resolver(&reg);
    res.down = down;
    set_msg(&bytes);
    sim::with(|s| s.nontrivial = true);
    sim::note(|| {
        format!(
            "{} <- {}{} from {:02x?}",
            e.name,
            if flds.is_some() { "fields of " } else { "" },
            reg.show(tid),
            &bytes[..bytes.len().min(48)]
        )
    });
    let rounds = 1 + draw(3);
    for round in 0..rounds {
        // Where to fail: learn how many visits there are first, or guess.
        let total = n.count() as u64;
        let (mut fail_at, mut panic_at) = (None, None);
        let last = round + 1 == rounds;
        match draw(if damage { 3 } else { 4 }) {
            0 => {}
            1 | 2 => fail_at = Some(1 + draw(total.min(12))),
            _ => panic_at = Some(1 + draw(total.min(12))),
        }
        if last && round > 0 {
            // after the failures, once in peace
            (fail_at, panic_at) = (None, None);
            probe("clean_decode_after_failures");
        }
        led(|l| {
            *l = Ledger { next: l.next, fail_at, panic_at, ..Ledger::default() };
        });
        let mut input = &bytes[..];
        alloc::start();
        let r = catch_unwind(AssertUnwindSafe(|| match (&flds, e.fields) {
            (Some(f), Some(df)) => {
                let mut it = f.iter().map(|f| Field { name: f.name.as_deref(), id: f.tid });
                df(&mut input, &mut it, &res)
            }
            _ => (e.dec)(&mut input, tid, &res),
        }));
        let (errs, planned, panicked) = led(|l| (l.errs.clone(), l.planned, l.panicked));
        match r {
            Err(p) => {
                alloc::stop();
                if !p.is::<ConsumerPanic>() {
                    resume_unwind(p);
                }
                drop(p);
                probe("unwound");
            }
            Ok(Err(err)) => {
                alloc::pause(|| {
                    if panicked {
                        fail(Class::Masked, || format!("{}: the consumer's panic became an error", e.name));
                    }
                    if let Some(id) = errs.first() {
                        let got = unwrap_crate_err(&err);
                        if errs.len() > 1 || got != Some(SimErr::Rej(*id)) {
                            fail(Class::Masked, || {
                                format!("{}: the consumer's error was {id} ({} errors), the caller got {err} ({:?})", e.name, errs.len(), err.kind())
                            });
                        }
                        if !n.ok() {
                            probe("own_error_and_damage");
                        }
                        if matches!(w, Want::Val(_)) && !planned {
                            fail(Class::TypedRefused, || format!("{}: the element was shown something it is not", e.name));
                        }
                    } else {
                        if unwrap_crate_err(&err).is_some_and(|x| matches!(x, SimErr::Rej(_))) {
                            fail(Class::Masked, || format!("{}: stale consumer error {err}", e.name));
                        }
                        match &w {
                            Want::Val(v) => fail(Class::TypedRefused, || format!("{}: refused with {err}, the bytes mean {}", e.name, typed::short(v))),
                            Want::Misfit(m) => typed::judge_error(m, &err, e.name),
                            Want::BadBytes => {}
                        }
                    }
                    let live = led(|l| l.live.len());
                    if live != 0 {
                        fail(Class::DropOnce, || format!("{}: {live} values still alive after the decode failed", e.name));
                    }
                });
                drop(err);
                let u = alloc::stop();
                if u.net != 0 {
                    fail(Class::Retained, || format!("{}: {} bytes still allocated after a failed decode", e.name, u.net));
                }
            }
            Ok(Ok(v)) => {
                alloc::pause(|| {
                    let tv = v.tv();
                    if panicked || planned || !errs.is_empty() {
                        fail(Class::Masked, || format!("{}: success although the consumer failed", e.name));
                    }
                    typed::judge(&w, &Ok(tv.clone()), e.name);
                    let live = led(|l| l.live.len());
                    if let Some(u) = untracked(e, &tv) {
                        let want = leaves(&tv) - u;
                        if live != want {
                            fail(Class::DropOnce, || format!("{}: {live} values alive, the result holds {want}", e.name));
                        }
                    }
                    if n.end != Some(bytes.len().wrapping_sub(input.len())) && n.end.is_some() {
                        fail(Class::Cursor, || format!("{}: cursor after success", e.name));
                    }
                });
                drop(v);
                let u = alloc::stop();
                let live = led(|l| l.live.len());
                if live != 0 {
                    fail(Class::DropOnce, || format!("{}: {live} values still alive after the result was dropped", e.name));
                }
                if u.net != 0 {
                    fail(Class::Retained, || format!("{}: {} bytes still allocated after the result was dropped", e.name, u.net));
                }
                probe("result_dropped");
            }
        }
        let live = led(|l| l.live.len());
        if live != 0 {
            fail(Class::DropOnce, || format!("{}: {live} values were never dropped", e.name));
        }
        if failed() {
            return;
        }
    }
    let _ = refm::interp;
}
