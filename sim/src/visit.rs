//! The simulated consumer: a `Visitor` that draws what to do with every value it is shown and compares
//! everything it is shown with the reference meaning of the bytes, live.

use crate::refm::{Bad, Node, K, PV};
use crate::sim::{self, chance, draw, fail, failed, Class};
use crate::ty::*;
use crate::typed;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{
    decode_with_visitor, DecodeAsTypeResult, DecodeError, DecodeItemIterator, IgnoreVisitor,
    Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::error::ErrorKind;
use scale_type_resolver::{Field, Primitive};
use std::cell::RefCell;

pub type R = SimResolver;

#[derive(Clone, Debug, PartialEq)]
pub enum SimErr {
    /// The consumer's own objection, unique per occurrence.
    Rej(u64),
    Lib(DecodeError),
}
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SimErr {}
impl From<DecodeError> for SimErr {
    fn from(e: DecodeError) -> Self {
        SimErr::Lib(e)
    }
}
impl From<SimErr> for scale_decode::Error {
    fn from(e: SimErr) -> Self {
        scale_decode::Error::custom(e)
    }
}
pub fn unwrap_crate_err(e: &scale_decode::Error) -> Option<SimErr> {
    match e.kind() {
        ErrorKind::Custom(b) => b.downcast_ref::<SimErr>().cloned(),
        ErrorKind::VisitorDecodeError(d) => Some(SimErr::Lib(d.clone())),
        _ => None,
    }
}

/// What the visitor of a value returned.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    NotCalled,
    Ok(u64),
    Err(SimErr),
}
pub type Slot = RefCell<Out>;
pub fn slot() -> Slot {
    RefCell::new(Out::NotCalled)
}

pub trait ResOk {
    type Ok;
}
impl<T, E> ResOk for Result<T, E> {
    type Ok = T;
}
type ItemOf<C> = <<C as Iterator>::Item as ResOk>::Ok;
// The handle types have no public names.
type CompositeField<'s, 'r, R> = ItemOf<Composite<'s, 'r, R>>;
type TupleField<'s, 'r, R> = ItemOf<Tuple<'s, 'r, R>>;
type ArrayItem<'s, 'r, R> = ItemOf<Array<'s, 'r, R>>;
type SequenceItem<'s, 'r, R> = ItemOf<Sequence<'s, 'r, R>>;

/// An item handle kept for later.
pub enum AnyH<'s, 'r> {
    C(CompositeField<'s, 'r, R>),
    T(TupleField<'s, 'r, R>),
    A(ArrayItem<'s, 'r, R>),
    S(SequenceItem<'s, 'r, R>),
}
pub struct Kept<'v, 's, 'r> {
    pub h: AnyH<'s, 'r>,
    pub n: &'v Node,
}
impl<'s, 'r> AnyH<'s, 'r> {
    pub fn bytes(&self) -> &'s [u8] {
        match self {
            AnyH::C(h) => h.bytes(),
            AnyH::T(h) => h.bytes(),
            AnyH::A(h) => h.bytes(),
            AnyH::S(h) => h.bytes(),
        }
    }
    pub fn type_id(&self) -> Tid {
        match self {
            AnyH::C(h) => *h.type_id(),
            AnyH::T(h) => *h.type_id(),
            AnyH::A(h) => *h.type_id(),
            AnyH::S(h) => *h.type_id(),
        }
    }
    pub fn name(&self) -> Option<Option<&'r str>> {
        match self {
            AnyH::C(h) => Some(h.name()),
            _ => None,
        }
    }
    pub fn is_compact(&self) -> Option<bool> {
        match self {
            AnyH::C(h) => Some(h.is_compact()),
            AnyH::T(h) => Some(h.is_compact()),
            _ => None,
        }
    }
    pub fn decode<V: Visitor<TypeResolver = R>>(&self, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
        match self {
            AnyH::C(h) => h.decode_with_visitor(v),
            AnyH::T(h) => h.decode_with_visitor(v),
            AnyH::A(h) => h.decode_with_visitor(v),
            AnyH::S(h) => h.decode_with_visitor(v),
        }
    }
    pub fn decode_as<T: scale_decode::DecodeAsType>(&self) -> Result<T, scale_decode::Error> {
        match self {
            AnyH::C(h) => h.decode_as_type(),
            AnyH::T(h) => h.decode_as_type(),
            AnyH::A(h) => h.decode_as_type(),
            AnyH::S(h) => h.decode_as_type(),
        }
    }
    pub fn dup(&self) -> Option<AnyH<'s, 'r>> {
        Some(match self {
            AnyH::C(h) => AnyH::C(h.clone()),
            // only clonable if the resolver is
            AnyH::T(_) => return None,
            AnyH::A(h) => AnyH::A(h.clone()),
            AnyH::S(h) => AnyH::S(h.clone()),
        })
    }
}

/// The value produced by a visit.
pub struct Tok<'v, 's, 'r> {
    pub id: u64,
    pub kept: Vec<Kept<'v, 's, 'r>>,
}

pub struct SV<'v, 'x> {
    pub n: &'v Node,
    pub reg: &'v Reg,
    /// Offset (in message coordinates) of the end of the slice being decoded from.
    pub end: usize,
    pub slot: &'x Slot,
    pub take: bool,
}

impl<'v, 'x> SV<'v, 'x> {
    pub fn new(n: &'v Node, reg: &'v Reg, end: usize, slot: &'x Slot) -> SV<'v, 'x> {
        SV { n, reg, end, slot, take: true }
    }
}

pub fn shown_class() -> Class {
    if sim::with(|s| s.rejected) {
        Class::ShownAfterReject
    } else {
        Class::Shown
    }
}
fn cursor_class() -> Class {
    if sim::with(|s| s.rejected) {
        Class::CursorRejected
    } else {
        Class::Cursor
    }
}

/// A visit: count, maybe switch task.
fn cb(kind: &'static str, n: &Node) {
    sim::with(|s| s.callbacks += 1);
    sim::ev(kind, n.start as u64, n.inner as u64);
    sim::seam();
}

/// Is this library error a faithful report of that defect?
pub fn err_matches(n: &Node, e: &DecodeError) -> Result<(), (Class, String)> {
    let Some(b) = n.first_bad() else {
        return Err((Class::RefusedGood, "no defect".into()));
    };
    let bad = match &b.k {
        K::Bad(b) => b.clone(),
        K::Bits { .. } => Bad::Eof,
        _ => return Ok(()),
    };
    let ok = match (&bad, e) {
        (Bad::Down(_, ResFault::Err(m)), DecodeError::TypeResolvingError(x)) => x.contains(m.as_str()),
        (Bad::Down(t, ResFault::NotFound), DecodeError::TypeIdNotFound(x)) => x.contains(&t.to_string()),
        (Bad::Down(t, ResFault::Unhandled), DecodeError::TypeIdNotFound(x)) => {
            x.contains(&t.to_string())
        }
        (Bad::Down(..), _) => {
            return Err((Class::ResolverError, format!("{bad:?} reported as {e:?}")));
        }
        (Bad::Variant(i), DecodeError::VariantNotFound(j)) => i == j,
        (Bad::Char(c), DecodeError::InvalidChar(d)) => c == d,
        (Bad::NotCompact, DecodeError::CannotDecodeCompactIntoType) => true,
        (
            Bad::Eof | Bad::Compact | Bad::Bool(_),
            DecodeError::NotEnoughInput | DecodeError::CodecError(_),
        ) => true,
        (Bad::TooDeep, _) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err((Class::ErrorInfo, format!("{bad:?} reported as {e:?}")))
    }
}

/// Result of decoding one node, after checking it against the reference.
pub enum Chk {
    Good,
    /// Consumer's own error; the bytes are well formed.
    Rejected(SimErr),
    /// Bytes or type information are bad (or the check failed): stop and pass it on.
    Broken(SimErr),
}

/// Check the outcome of decoding `n` given what its visitor returned. `pos`: cursor afterwards, if known.
pub fn check(n: &Node, out: &Out, res: Result<u64, SimErr>, pos: Option<usize>) -> Chk {
    let trans = sim::with(|s| s.transient_fired);
    let where_ = || format!("at {}..{:?} type {} kind {}", n.start, n.end, n.tid, kind(n));
    match (out, res) {
        (Out::Err(e), Err(r)) => {
            if *e != r {
                fail(Class::Masked, || format!("consumer returned {e:?}, caller got {r:?} {}", where_()));
            }
            if n.ok() && !trans {
                if let (Some(p), Some(end)) = (pos, n.end) {
                    if p != end {
                        fail(Class::CursorRejected, || {
                            format!("after a rejected value cursor is {p}, value ends at {end} {}", where_())
                        });
                    }
                }
                if matches!(e, SimErr::Rej(_)) {
                    return Chk::Rejected(r);
                }
            }
            Chk::Broken(r)
        }
        (Out::Err(e), Ok(_)) => {
            fail(Class::Masked, || format!("consumer returned {e:?}, caller got Ok {}", where_()));
            Chk::Broken(e.clone())
        }
        (Out::Ok(t), Ok(r)) => {
            if *t != r {
                fail(Class::Token, || format!("consumer returned value {t}, caller got {r} {}", where_()));
            }
            match n.end {
                Some(end) => {
                    if let Some(p) = pos {
                        if p != end {
                            fail(cursor_class(), || {
                                format!("cursor is {p} after a value that ends at {end} {}", where_())
                            });
                        }
                    }
                    Chk::Good
                }
                None => {
                    fail(Class::AcceptedBad, || {
                        format!("success, but {:?} {}", n.first_bad().map(|b| &b.k), where_())
                    });
                    Chk::Good
                }
            }
        }
        (_, Err(r)) => {
            if trans {
                return Chk::Broken(r);
            }
            if n.ok() {
                fail(Class::RefusedGood, || format!("well formed, but got {r:?} {}", where_()));
            } else {
                match &r {
                    SimErr::Rej(_) => {
                        fail(Class::Masked, || format!("stale consumer error {r:?} {}", where_()))
                    }
                    SimErr::Lib(e) => {
                        if let Err((c, m)) = err_matches(n, e) {
                            fail(c, || format!("{m} {}", where_()));
                        }
                    }
                }
            }
            Chk::Broken(r)
        }
        (Out::NotCalled, Ok(_)) => {
            fail(Class::Shown, || format!("success without showing the value {}", where_()));
            Chk::Good
        }
    }
}

pub fn kind(n: &Node) -> &'static str {
    match &n.k {
        K::Bad(_) => "bad",
        K::Prim(..) => "prim",
        K::Str { .. } => "str",
        K::Bits { .. } => "bits",
        K::List { seq: true, .. } => "seq",
        K::List { .. } => "array",
        K::Tuple { .. } => "tuple",
        K::Comp { .. } => "composite",
        K::Var { .. } => "variant",
    }
}

/// Containers, uniformly.
pub trait Cont<'s, 'r>: DecodeItemIterator<'s, 'r, R> {
    const REC: bool;
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>>;
    fn next_h(&mut self) -> Option<Result<AnyH<'s, 'r>, DecodeError>>;
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn undec(&self) -> &'s [u8];
    fn rem(&self) -> usize;
    fn empty(&self) -> Option<bool> {
        None
    }
    fn peek(&self) -> Option<Option<&'r str>> {
        None
    }
    fn tuple(&self) -> Option<Tuple<'s, 'r, R>> {
        None
    }
    fn unnamed(&self) -> Option<bool> {
        None
    }
    fn flds(&self) -> Option<&[Field<'r, Tid>]> {
        None
    }
}
macro_rules! cont {
    ($t:ident, $rec:expr, $k:ident, {$($x:tt)*}) => {
        impl<'s, 'r> Cont<'s, 'r> for $t<'s, 'r, R> {
            const REC: bool = $rec;
            fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> { $t::decode_item(self, v) }
            fn next_h(&mut self) -> Option<Result<AnyH<'s, 'r>, DecodeError>> { Iterator::next(self).map(|r| r.map(AnyH::$k)) }
            fn skip(&mut self) -> Result<(), DecodeError> { self.skip_decoding() }
            fn undec(&self) -> &'s [u8] { self.bytes_from_undecoded() }
            fn rem(&self) -> usize { self.remaining() }
            $($x)*
        }
    };
}
cont!(Composite, true, C, {
    fn peek(&self) -> Option<Option<&'r str>> { Some(self.peek_name()) }
    fn tuple(&self) -> Option<Tuple<'s, 'r, R>> { Some(self.as_tuple()) }
    fn unnamed(&self) -> Option<bool> { Some(self.has_unnamed_fields()) }
    fn flds(&self) -> Option<&[Field<'r, Tid>]> { Some(self.fields()) }
});
cont!(Tuple, true, T, {});
cont!(Array, false, A, { fn empty(&self) -> Option<bool> { Some(self.is_empty()) } });
cont!(Sequence, false, S, {});

/// What the reference says about a container.
pub struct View<'v> {
    pub items: &'v [Node],
    pub total: u64,
    pub first: usize,
    pub fields: Option<&'v [Fld]>,
    pub compact: bool,
    pub ok: bool,
    pub end: Option<usize>,
    pub reg: &'v Reg,
    /// End offset of the underlying slice.
    pub slice_end: usize,
    /// Element type for lists.
    pub el: Option<Tid>,
}

/// Let the consumer act on a container. Ok: kept handles; Err: what the consumer returns.
pub fn drive<'v, 's, 'r, C: Cont<'s, 'r>>(
    c: &mut C,
    v: &View<'v>,
    depth: u32,
) -> Result<Vec<Kept<'v, 's, 'r>>, SimErr> {
    let a = sim::with(|s| s.acts.clone());
    let mut kept = vec![];
    let mut next = 0usize; // items consumed (successfully or rejected)
    let mut fused = false; // record container after a rejected field
    let mut skipped_all = false;
    let mut overrun = 0;
    let plain = v.total > 400; // long lists: do not spend the tape on every item
    loop {
        if failed() {
            return Err(SimErr::Rej(sim::fresh_id()));
        }
        let at_end = next as u64 == v.total || skipped_all || fused;
        // --- bookkeeping, checked at every step ---
        if a.query > 0 || overrun > 0 {
            let want = if fused || skipped_all { 0 } else { v.total - next as u64 };
            if c.rem() as u64 != want {
                fail(Class::Handle, || format!("remaining() is {}, {} items are left", c.rem(), want));
            }
            if let Some(e) = c.empty() {
                if e != (want == 0) {
                    fail(Class::Handle, || format!("is_empty() is {e} with {want} items left"));
                }
            }
            if !fused || skipped_all {
                let pos = if skipped_all || next as u64 == v.total {
                    v.end
                } else if let Some(n) = v.items.get(next) {
                    Some(n.start)
                } else {
                    None
                };
                let got = v.slice_end.wrapping_sub(c.undec().len());
                if let Some(p) = pos {
                    if got != p {
                        fail(Class::Handle, || {
                            format!("bytes_from_undecoded() starts at {got}, next item is at {p} (item {next} of {})", v.total)
                        });
                    }
                }
            }
            if let Some(t) = c.tuple() {
                if t.remaining() as u64 != want {
                    fail(Class::Handle, || format!("as_tuple() has {} items, {want} are left", t.remaining()));
                }
            }
            if let (Some(p), Some(f)) = (c.peek(), v.fields) {
                let want = if at_end { None } else { f[next].name.as_deref() };
                if p != want {
                    fail(Class::Handle, || format!("peek_name() is {p:?}, next field is {want:?}"));
                }
            }
            if let (Some(u), Some(f)) = (c.unnamed(), v.fields) {
                if u != f.iter().any(|f| f.name.is_none()) {
                    fail(Class::Handle, || format!("has_unnamed_fields() is {u}"));
                }
            }
        }
        if let (0, Some(fl), Some(f)) = (next, c.flds(), v.fields) {
            if fl.len() != f.len()
                || fl.iter().zip(f).any(|(x, y)| x.name != y.name.as_deref() || x.id != y.tid)
            {
                fail(shown_class(), || format!("fields() shows {fl:?}, type has {f:?}"));
            }
        }
        if at_end {
            if !a.overrun || overrun >= 3 || !chance(1, 2) {
                return Ok(kept);
            }
            overrun += 1;
            sim::probe("container_used_after_end");
            match draw(4) {
                0 => {
                    let s = slot();
                    let n0 = crate::refm::interp(v.reg, 0, &[], 0).0;
                    if let Some(r) = c.item(SV::new(&n0, v.reg, v.slice_end, &s)) {
                        let r = r.map(|t| t.id);
                        fail(Class::Handle, || format!("decode_item() after the end gave {r:?}"));
                    }
                }
                1 => {
                    if c.next_h().is_some() {
                        fail(Class::Handle, || "next() after the end gave an item".into());
                    }
                }
                2 => {
                    if DecodeItemIterator::decode_item(c, IgnoreVisitor::<R>::new()).is_some() {
                        fail(Class::Handle, || "DecodeItemIterator::decode_item() after the end gave an item".into());
                    }
                }
                _ => match c.skip() {
                    Ok(()) => {
                        if v.ok {
                            skipped_all = true;
                        } else if fused {
                            fail(Class::AcceptedBad, || "skip_decoding() passed over bad bytes".into());
                        }
                    }
                    Err(e) => {
                        if v.ok {
                            fail(Class::RefusedGood, || format!("skip_decoding() failed with {e:?} on good bytes"));
                        }
                        return Err(SimErr::Lib(e));
                    }
                },
            }
            continue;
        }
        let Some(n) = v.items.get(next) else {
            // The reference stopped before this item; only reachable after something already failed.
            fail(Class::Shown, || format!("container continues past a bad item ({next} of {})", v.total));
            return Err(SimErr::Rej(sim::fresh_id()));
        };
        // (what is decoded twice at every level of a deep value is decoded very often)
        let busy = sim::with(|s| s.steps > 200_000);
        let op = if busy || plain && draw(8) != 7 {
            0
        } else {
            sim::weighted(&[
                a.decode, a.ignore, a.iterate, a.stop, a.skip, a.reject, a.wrap, a.dynamic, a.as_tuple,
                a.typed, a.panic, a.keep, a.nested,
            ])
        };
        sim::ev("op", op as u64, next as u64);
        let pos_after = |c: &C| Some(v.slice_end.wrapping_sub(c.undec().len()));
        let chk: Chk = match op {
            0 | 7 => {
                let s = slot();
                let sv = SV::new(n, v.reg, v.slice_end, &s);
                let r = if op == 0 { c.item(sv) } else { DecodeItemIterator::decode_item(c, sv) };
                let Some(r) = r else {
                    fail(shown_class(), || format!("item {next} of {} is missing", v.total));
                    return Err(SimErr::Rej(sim::fresh_id()));
                };
                let r = r.map(|t| {
                    kept.extend(t.kept);
                    t.id
                });
                // A record container stays put after a failed field; a list moves on.
                let p = if r.is_ok() || !C::REC { pos_after(c) } else { None };
                let o = s.borrow().clone();
                check(n, &o, r, p)
            }
            1 if draw(3) == 2 => {
                let s = slot();
                let Some(r) = c.item(Plain::new(n, &s)) else {
                    fail(shown_class(), || format!("item {next} of {} is missing", v.total));
                    return Err(SimErr::Rej(sim::fresh_id()));
                };
                let p = if r.is_ok() || !C::REC { pos_after(c) } else { None };
                let o = s.borrow().clone();
                check(n, &o, r, p)
            }
            1 => {
                let Some(r) = c.item(IgnoreVisitor::<R>::new()) else {
                    fail(shown_class(), || format!("item {next} of {} is missing", v.total));
                    return Err(SimErr::Rej(sim::fresh_id()));
                };
                let p = if r.is_ok() || !C::REC { pos_after(c) } else { None };
                match r {
                    Ok(()) => check(n, &Out::Ok(0), Ok(0), p),
                    Err(e) => check(n, &Out::Ok(0), Err(SimErr::Lib(e)), p),
                }
            }
            2 | 11 => {
                let Some(r) = c.next_h() else {
                    fail(shown_class(), || format!("item {next} of {} is missing", v.total));
                    return Err(SimErr::Rej(sim::fresh_id()));
                };
                match r {
                    Ok(h) => {
                        let k = Kept {
                            h,
                            n,
                        };
                        let want_name = v.fields.map(|f| f[next].name.as_deref());
                        check_handle(&k, want_name, v.compact);
                        let c2 = check(n, &Out::Ok(0), Ok(0), pos_after(c));
                        if op == 11 {
                            sim::probe("handle_kept");
                            if draw(3) == 2 {
                                if let Some(h) = k.h.dup() {
                                    kept.push(Kept { h, n });
                                }
                            }
                            kept.push(k);
                            c2
                        } else {
                            match (c2, decode_kept(&k, v.reg, false)) {
                                (_, b @ Chk::Broken(_)) => b,
                                // the container has already moved on: no fuse
                                (_, Chk::Rejected(e)) => {
                                    next += 1;
                                    if a.tolerate && chance(3, 4) {
                                        sim::probe("tolerated");
                                        continue;
                                    }
                                    return Err(e);
                                }
                                (c2, _) => c2,
                            }
                        }
                    }
                    Err(e) => check(n, &Out::Ok(0), Err(SimErr::Lib(e)), None),
                }
            }
            3 => {
                sim::fault("consumer_stopped_early");
                return Ok(kept);
            }
            4 => {
                sim::fault("consumer_skipped_rest");
                match c.skip() {
                    Ok(()) => {
                        if !v.ok {
                            fail(Class::AcceptedBad, || "skip_decoding() passed over bad bytes".into());
                        }
                        skipped_all = true;
                        let p = v.slice_end.wrapping_sub(c.undec().len());
                        if v.ok && Some(p) != v.end {
                            fail(cursor_class(), || format!("skip_decoding() left the cursor at {p}, the value ends at {:?}", v.end));
                        }
                        continue;
                    }
                    Err(e) => {
                        if v.ok && !sim::with(|s| s.transient_fired) {
                            fail(Class::RefusedGood, || format!("skip_decoding() failed with {e:?} on good bytes"));
                        }
                        return Err(SimErr::Lib(e));
                    }
                }
            }
            5 => return Err(reject()),
            6 => {
                let s = slot();
                let sv = VisitorWithCrateError(SV::new(n, v.reg, v.slice_end, &s));
                let Some(r) = c.item(sv) else {
                    fail(shown_class(), || format!("item {next} of {} is missing", v.total));
                    return Err(SimErr::Rej(sim::fresh_id()));
                };
                let r = match r {
                    Ok(t) => {
                        kept.extend(t.kept);
                        Ok(t.id)
                    }
                    Err(e) => match unwrap_crate_err(&e) {
                        Some(e) => Err(e),
                        None => {
                            fail(Class::Masked, || format!("wrapped visitor error became {e:?}"));
                            Err(SimErr::Rej(sim::fresh_id()))
                        }
                    },
                };
                let p = if r.is_ok() || !C::REC { pos_after(c) } else { None };
                let o = s.borrow().clone();
                check(n, &o, r, p)
            }
            8 => {
                // A look at the rest as a tuple must not disturb the original.
                if let Some(mut t) = c.tuple() {
                    sim::probe("as_tuple");
                    if next > 0 {
                        sim::probe("as_tuple_after_some_items");
                    }
                    if depth < 2 {
                        let v2 = View {
                            items: &v.items[next..],
                            total: v.total - next as u64,
                            first: n.start,
                            fields: None,
                            compact: v.compact,
                            ok: v.ok,
                            end: v.end,
                            reg: v.reg,
                            slice_end: v.slice_end,
                            el: None,
                        };
                        let got = v.slice_end.wrapping_sub(t.bytes_from_start().len());
                        if got != n.start {
                            fail(Class::Handle, || format!("as_tuple() starts at {got}, next field at {}", n.start));
                        }
                        match drive(&mut t, &v2, depth + 1) {
                            Ok(k) => kept.extend(k),
                            Err(e @ SimErr::Lib(_)) => return Err(e),
                            Err(_) => {}
                        }
                    }
                }
                continue;
            }
            9 => typed::typed_item(c, n, v),
            10 => {
                sim::fault("consumer_panic");
                let id = sim::fresh_id();
                std::panic::panic_any(sim::ConsumerPanic(id));
            }
            _ => {
                crate::engine::nested_decode();
                continue;
            }
        };
        match chk {
            Chk::Good => next += 1,
            Chk::Rejected(e) => {
                next += 1;
                if a.tolerate && chance(3, 4) {
                    sim::probe("tolerated");
                    if C::REC {
                        fused = true;
                        if draw(2) == 0 {
                            return Ok(kept);
                        }
                    }
                    continue;
                }
                return Err(e);
            }
            Chk::Broken(e) => {
                if a.overrun && matches!(e, SimErr::Lib(_)) && !failed() {
                    after_error(c, n);
                }
                return Err(e);
            }
        }
    }
}

/// A consumer that goes on after the library's own error is told that there is no more.
fn after_error<'s, 'r, C: Cont<'s, 'r>>(c: &mut C, n: &Node) {
    if n.end.is_some() && sim::with(|s| !s.transient_fired) {
        return;
    }
    sim::probe("container_used_after_error");
    for _ in 0..1 + draw(3) {
        if C::REC && c.rem() != 0 {
            fail(Class::Handle, || format!("remaining() is {} after a field failed", c.rem()));
        }
        if C::REC && c.peek().is_some_and(|p| p.is_some()) {
            fail(Class::Handle, || format!("peek_name() is {:?} after a field failed", c.peek()));
        }
        if C::REC && c.tuple().is_some_and(|t| t.remaining() != 0) {
            fail(Class::Handle, || "as_tuple() is not empty after a field failed".into());
        }
        let more = match draw(2) {
            0 => c.next_h().is_some(),
            _ => c.item(IgnoreVisitor::<R>::new()).is_some(),
        };
        if C::REC && more {
            fail(Class::Handle, || "there is another field after one that failed".into());
        }
    }
}

/// A consumer that implements nothing but `visit_unexpected`.
pub struct Plain<'v, 'x> {
    pub n: &'v Node,
    pub slot: &'x Slot,
    pub err: bool,
}
impl<'v, 'x> Plain<'v, 'x> {
    pub fn new(n: &'v Node, slot: &'x Slot) -> Self {
        let err = sim::with(|s| s.acts.reject) > 0 && draw(4) == 3;
        Plain { n, slot, err }
    }
}
fn unexpected(n: &Node) -> Option<Unexpected> {
    Some(match &n.k {
        K::Bad(_) => return None,
        K::Prim(p, _) => match p {
            Primitive::Bool => Unexpected::Bool,
            Primitive::Char => Unexpected::Char,
            Primitive::Str => Unexpected::Str,
            Primitive::U8 => Unexpected::U8,
            Primitive::U16 => Unexpected::U16,
            Primitive::U32 => Unexpected::U32,
            Primitive::U64 => Unexpected::U64,
            Primitive::U128 => Unexpected::U128,
            Primitive::U256 => Unexpected::U256,
            Primitive::I8 => Unexpected::I8,
            Primitive::I16 => Unexpected::I16,
            Primitive::I32 => Unexpected::I32,
            Primitive::I64 => Unexpected::I64,
            Primitive::I128 => Unexpected::I128,
            Primitive::I256 => Unexpected::I256,
        },
        K::Str { .. } => Unexpected::Str,
        K::Bits { .. } => Unexpected::Bitsequence,
        K::List { seq: true, .. } => Unexpected::Sequence,
        K::List { .. } => Unexpected::Array,
        K::Tuple { .. } => Unexpected::Tuple,
        K::Comp { .. } => Unexpected::Composite,
        K::Var { .. } => Unexpected::Variant,
    })
}
impl Visitor for Plain<'_, '_> {
    type Value<'s, 'r> = u64;
    type Error = SimErr;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, u: Unexpected) -> Result<Self::Value<'s, 'r>, SimErr> {
        cb("unexpected", self.n);
        sim::probe("plain_consumer");
        let want = unexpected(self.n);
        if want != Some(u) {
            let n = self.n;
            fail(shown_class(), || format!("a consumer of nothing was told {u:?}, the value is {want:?} at {}..{:?} type {}", n.start, n.end, n.tid));
        }
        let id = sim::fresh_id();
        let r = if self.err { Err(reject()) } else { Ok(id) };
        *self.slot.borrow_mut() = match &r {
            Ok(i) => Out::Ok(*i),
            Err(e) => Out::Err(e.clone()),
        };
        r
    }
}

pub fn reject() -> SimErr {
    sim::fault("consumer_rejects");
    sim::with(|s| s.rejected = true);
    SimErr::Rej(sim::fresh_id())
}

pub fn check_handle(k: &Kept, want_name: Option<Option<&str>>, compact: bool) {
    let n = k.n;
    if k.h.type_id() != n.tid {
        fail(Class::Deferred, || format!("item has type id {}, expected {}", k.h.type_id(), n.tid));
    }
    if let (Some(got), Some(want)) = (k.h.name(), want_name) {
        if got != want {
            fail(Class::Deferred, || format!("item is called {got:?}, expected {want:?}"));
        }
    }
    if let Some(c) = k.h.is_compact() {
        if c != compact {
            fail(Class::Deferred, || format!("item says is_compact()={c}, expected {compact}"));
        }
    }
    if let Some(e) = n.end {
        if k.h.bytes().len() != e - n.start || !bytes_eq(k.h.bytes(), n) {
            fail(Class::Deferred, || {
                format!("item holds {} bytes {:02x?}, its encoding is {}..{e}", k.h.bytes().len(), &k.h.bytes()[..k.h.bytes().len().min(24)], n.start)
            });
        }
    }
}
thread_local! {
    /// The message being decoded, for comparing item bytes.
    pub static MSG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
fn bytes_eq(b: &[u8], n: &Node) -> bool {
    MSG.with(|m| {
        let m = m.borrow();
        let e = n.end.unwrap_or(n.start);
        m.len() < e || &m[n.start..e] == b
    })
}

/// Decode a kept handle (now, later, again).
pub fn decode_kept<'v, 's, 'r>(k: &Kept<'v, 's, 'r>, reg: &'v Reg, deferred: bool) -> Chk {
    let n = k.n;
    let end = n.end.unwrap_or(n.start + k.h.bytes().len());
    if sim::with(|s| s.acts.typed) > 0 && draw(4) == 3 {
        return typed::typed_handle(&k.h, n, reg);
    }
    let s = slot();
    let sv = SV::new(n, reg, end, &s);
    let before = sim::with(|s| s.viol.is_some());
    let how = draw(3);
    let r = match how {
        2 => match k.h.decode(VisitorWithCrateError(sv)) {
            Ok(t) => Ok((t.id, t.kept)),
            Err(e) => Err(unwrap_crate_err(&e).unwrap_or(SimErr::Rej(0))),
        },
        _ => k.h.decode(sv).map(|t| (t.id, t.kept)),
    };
    let o = s.borrow().clone();
    let (r, sub) = match r {
        Ok((id, kept)) => (Ok(id), kept),
        Err(e) => (Err(e), vec![]),
    };
    let c = check(n, &o, r, None);
    if matches!(c, Chk::Good) {
        // (handles within handles: bounded, for deep values)
        let few = if sim::with(|s| s.steps > 200_000) { 0 } else { 4 };
        for k2 in sub.iter().take(few) {
            if let b @ Chk::Broken(_) = decode_kept(k2, reg, deferred) {
                return b;
            }
        }
    }
    if deferred {
        sim::probe("handle_decoded_later");
    }
    // Report anything that went wrong while decoding an item apart from its container as such.
    if !before && deferred {
        sim::with(|s| {
            if let Some(v) = &mut s.viol {
                if v.class != Class::Panic && v.class != Class::Masked {
                    v.class = Class::Deferred;
                }
            }
        });
    }
    c
}

impl<'v, 'x> SV<'v, 'x> {
    fn ok<'s, 'r>(self, kept: Vec<Kept<'v, 's, 'r>>) -> Result<Tok<'v, 's, 'r>, SimErr> {
        let id = sim::fresh_id();
        *self.slot.borrow_mut() = Out::Ok(id);
        Ok(Tok { id, kept })
    }
    fn err<'s, 'r>(self, e: SimErr) -> Result<Tok<'v, 's, 'r>, SimErr> {
        *self.slot.borrow_mut() = Out::Err(e.clone());
        Err(e)
    }
    fn fin<'s, 'r>(self, r: Result<Vec<Kept<'v, 's, 'r>>, SimErr>) -> Result<Tok<'v, 's, 'r>, SimErr> {
        match r {
            Ok(k) => self.ok(k),
            Err(e) => self.err(e),
        }
    }
    fn enter(&self, what: &'static str, tid: Tid) -> bool {
        cb(what, self.n);
        if !matches!(*self.slot.borrow(), Out::NotCalled) {
            fail(shown_class(), || format!("{what} shown twice at {}", self.n.start));
        }
        if tid != self.n.inner {
            fail(shown_class(), || format!("{what} shown with type id {tid}, expected {}", self.n.inner));
        }
        if kind(self.n) != what {
            fail(shown_class(), || {
                format!("a {what} was shown where the bytes hold {} ({:?}) at {}", kind(self.n), short(&self.n.k), self.n.start)
            });
            return false;
        }
        true
    }
    fn prim<'s, 'r>(self, p: Primitive, v: PV, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if self.enter("prim", tid) {
            if let K::Prim(q, w) = &self.n.k {
                if *q != p || *w != v {
                    fail(shown_class(), || {
                        format!("shown {p:?} {v:?}, the bytes hold {q:?} {w:?} at {}", self.n.start)
                    });
                }
            }
        }
        if leaf_reject() {
            return self.err(reject());
        }
        self.ok(vec![])
    }
    /// Pre-actions in every container callback: reject at once, panic, run something else.
    fn pre(&self) -> Option<SimErr> {
        let a = sim::with(|s| (s.acts.reject, s.acts.panic, s.acts.nested));
        if a.0 > 0 && chance(a.0.min(8) as u64, 40) {
            return Some(reject());
        }
        if a.1 > 0 && chance(a.1.min(8) as u64, 80) {
            sim::fault("consumer_panic");
            std::panic::panic_any(sim::ConsumerPanic(0));
        }
        if a.2 > 0 && chance(a.2.min(8) as u64, 40) {
            crate::engine::nested_decode();
        }
        None
    }
    fn view(&self) -> View<'v> {
        let n = self.n;
        let (total, first, fields, el) = match &n.k {
            K::List { len, first, el, .. } => (*len, *first, None, Some(*el)),
            K::Tuple { tids, .. } => (tids.len() as u64, n.start, None, None),
            K::Comp { fields, .. } => (fields.len() as u64, n.start, Some(&fields[..]), None),
            K::Var { fields, .. } => (fields.len() as u64, n.start + 1, Some(&fields[..]), None),
            _ => (0, n.start, None, None),
        };
        View {
            items: n.items(),
            total,
            first,
            fields,
            compact: n.compact,
            ok: n.ok(),
            end: n.end,
            reg: self.reg,
            slice_end: self.end,
            el,
        }
    }
    fn start_ok(&self, what: &str, b: &[u8]) {
        let got = self.end.wrapping_sub(b.len());
        if got != self.n.start {
            fail(Class::Handle, || format!("{what}: bytes_from_start() is at {got}, value starts at {}", self.n.start));
        }
    }
}
fn short(k: &K) -> String {
    let mut s = format!("{k:?}");
    if s.len() > 120 {
        let mut e = 120;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
    }
    s
}
fn leaf_reject() -> bool {
    let r = sim::with(|s| s.acts.reject);
    r > 0 && chance(r.min(8) as u64, 80)
}

macro_rules! ints {
    ($($f:ident $t:ident $p:ident $k:ident $w:ty;)*) => {$(
        fn $f<'s, 'r>(self, v: $t, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
            self.prim(Primitive::$p, PV::$k(v as $w), tid)
        }
    )*};
}

impl<'v, 'x> Visitor for SV<'v, 'x> {
    type Value<'s, 'r> = Tok<'v, 's, 'r>;
    type Error = SimErr;
    type TypeResolver = R;

    fn unchecked_decode_as_type<'s, 'r>(
        mut self,
        input: &mut &'s [u8],
        type_id: Tid,
        types: &'r R,
    ) -> DecodeAsTypeResult<Self, Result<Tok<'v, 's, 'r>, SimErr>> {
        let take = self.take;
        self.take = false;
        let n = self.n;
        if take {
            let got = self.end.wrapping_sub(input.len());
            if got != n.start {
                fail(cursor_class(), || format!("decoding starts at {got}, the value is at {}", n.start));
            }
            if type_id != n.tid {
                fail(shown_class(), || format!("decoding starts with type id {type_id}, expected {}", n.tid));
            }
            if !matches!(*self.slot.borrow(), Out::NotCalled) {
                fail(shown_class(), || format!("value at {} offered twice", n.start));
            }
        }
        let w = sim::with(|s| s.acts.takeover);
        if !take || w == 0 || !chance(w.min(8) as u64, 40) {
            return DecodeAsTypeResult::Skipped(self);
        }
        sim::seam();
        if let (Some(end), true) = (n.end, draw(2) == 0) {
            // The consumer knows this type and reads it itself.
            sim::fault("consumer_took_over");
            let used = end - n.start;
            if used > input.len() {
                fail(cursor_class(), || "value is offered with its bytes cut off".into());
                return DecodeAsTypeResult::Skipped(self);
            }
            *input = &input[used..];
            let r = if leaf_reject() { self.err(reject()) } else { self.ok(vec![]) };
            return DecodeAsTypeResult::Decoded(r);
        }
        if !n.entered_compact {
            sim::fault("consumer_took_over");
            sim::probe("takeover_delegates");
            return DecodeAsTypeResult::Decoded(decode_with_visitor(input, type_id, types, self));
        }
        DecodeAsTypeResult::Skipped(self)
    }

    ints! {
        visit_u8 u8 U8 U u128; visit_u16 u16 U16 U u128; visit_u32 u32 U32 U u128; visit_u64 u64 U64 U u128; visit_u128 u128 U128 U u128;
        visit_i8 i8 I8 I i128; visit_i16 i16 I16 I i128; visit_i32 i32 I32 I i128; visit_i64 i64 I64 I i128; visit_i128 i128 I128 I i128;
    }
    fn visit_bool<'s, 'r>(self, v: bool, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        self.prim(Primitive::Bool, PV::Bool(v), tid)
    }
    fn visit_char<'s, 'r>(self, v: char, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        self.prim(Primitive::Char, PV::Char(v), tid)
    }
    fn visit_u256<'r>(self, v: &[u8; 32], tid: Tid) -> Result<Self::Value<'_, 'r>, SimErr> {
        self.prim(Primitive::U256, PV::W(*v), tid)
    }
    fn visit_i256<'r>(self, v: &[u8; 32], tid: Tid) -> Result<Self::Value<'_, 'r>, SimErr> {
        self.prim(Primitive::I256, PV::W(*v), tid)
    }
    fn visit_sequence<'s, 'r>(self, c: &mut Sequence<'s, 'r, R>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("seq", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("sequence", c.bytes_from_start());
        if let K::List { len, .. } = &self.n.k {
            if c.remaining() as u64 != *len {
                fail(shown_class(), || format!("sequence of {len} shown with {} items", c.remaining()));
            }
        }
        if let Some(e) = self.pre() {
            return self.err(e);
        }
        let r = drive(c, &self.view(), 0);
        self.fin(r)
    }
    fn visit_array<'s, 'r>(self, c: &mut Array<'s, 'r, R>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("array", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("array", c.bytes_from_start());
        if let K::List { len, .. } = &self.n.k {
            if c.remaining() as u64 != *len {
                fail(shown_class(), || format!("array of {len} shown with {} items", c.remaining()));
            }
        }
        if let Some(e) = self.pre() {
            return self.err(e);
        }
        let r = drive(c, &self.view(), 0);
        self.fin(r)
    }
    fn visit_composite<'s, 'r>(self, c: &mut Composite<'s, 'r, R>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("composite", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("composite", c.bytes_from_start());
        if let K::Comp { path, .. } = &self.n.k {
            if c.path().ne(path.iter().map(|s| s.as_str())) || c.name() != path.last().map(|s| s.as_str()) {
                fail(shown_class(), || {
                    format!("composite shown as {:?} {:?}, type is {path:?}", c.name(), c.path().collect::<Vec<_>>())
                });
            }
        }
        if let Some(e) = self.pre() {
            return self.err(e);
        }
        let r = drive(c, &self.view(), 0);
        self.fin(r)
    }
    fn visit_tuple<'s, 'r>(self, c: &mut Tuple<'s, 'r, R>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("tuple", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("tuple", c.bytes_from_start());
        if let Some(e) = self.pre() {
            return self.err(e);
        }
        let r = drive(c, &self.view(), 0);
        self.fin(r)
    }
    fn visit_variant<'s, 'r>(self, c: &mut Variant<'s, 'r, R>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("variant", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("variant", c.bytes_from_start());
        if let K::Var { ty, vi, .. } = &self.n.k {
            if let Some(Ty::Var(_, vs)) = self.reg.get(*ty) {
                let d = &vs[*vi];
                if c.name() != d.name || c.index() != d.idx {
                    fail(shown_class(), || {
                        format!("variant shown as {}={}, the bytes say {}={}", c.name(), c.index(), d.name, d.idx)
                    });
                }
            }
        }
        let v = self.view();
        let u = self.end.wrapping_sub(c.bytes_from_undecoded().len());
        if u != v.first {
            fail(Class::Handle, || format!("variant: bytes_from_undecoded() at {u}, fields start at {}", v.first));
        }
        if let Some(e) = self.pre() {
            return self.err(e);
        }
        if sim::with(|s| s.acts.skip) > 0 && chance(1, 20) {
            sim::fault("consumer_skipped_rest");
            let r = c.skip_decoding();
            return match r {
                Ok(()) if !self.n.ok() => {
                    fail(Class::AcceptedBad, || "Variant::skip_decoding() passed over bad bytes".into());
                    self.ok(vec![])
                }
                Ok(()) => {
                    let p = self.end.wrapping_sub(c.bytes_from_undecoded().len());
                    if Some(p) != self.n.end {
                        fail(cursor_class(), || format!("Variant::skip_decoding() left the cursor at {p}, value ends at {:?}", self.n.end));
                    }
                    self.ok(vec![])
                }
                Err(e) => {
                    if self.n.ok() && !sim::with(|s| s.transient_fired) {
                        fail(Class::RefusedGood, || format!("Variant::skip_decoding() failed with {e:?}"));
                    }
                    self.err(SimErr::Lib(e))
                }
            };
        }
        let r = drive(c.fields(), &v, 0);
        self.fin(r)
    }
    fn visit_str<'s, 'r>(self, c: &mut Str<'s>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("str", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("str", c.bytes_from_start());
        if let K::Str { len, text, .. } = &self.n.k {
            if c.len() != *len || c.is_empty() != (*len == 0) {
                fail(shown_class(), || format!("string of {len} bytes shown with len {}", c.len()));
            }
            match c.bytes_after() {
                Ok(b) => {
                    let p = self.end.wrapping_sub(b.len());
                    if Some(p) != self.n.end {
                        fail(Class::Handle, || format!("Str::bytes_after() at {p}, string ends at {:?}", self.n.end));
                    }
                }
                Err(e) => fail(Class::Handle, || format!("Str::bytes_after() failed with {e:?}")),
            }
            for _ in 0..draw(3) {
                match (c.as_str(), text) {
                    (Ok(s), Some(t)) if s == t => {}
                    (Err(DecodeError::InvalidStr(_)), None) => {
                        sim::probe("invalid_utf8_read");
                        if draw(2) == 0 {
                            // a consumer that needs the text passes the error on
                            let e = c.as_str().unwrap_err();
                            return self.err(SimErr::Lib(e));
                        }
                    }
                    (r, t) => fail(shown_class(), || format!("string shown as {r:?}, bytes hold {t:?}")),
                }
            }
        }
        if leaf_reject() {
            return self.err(reject());
        }
        self.ok(vec![])
    }
    fn visit_bitsequence<'s, 'r>(self, c: &mut BitSequence<'s>, tid: Tid) -> Result<Tok<'v, 's, 'r>, SimErr> {
        if !self.enter("bits", tid) {
            return self.err(SimErr::Rej(0));
        }
        self.start_ok("bits", c.bytes_from_start());
        let K::Bits { bits, .. } = &self.n.k else { unreachable!() };
        if leaf_reject() {
            return self.err(reject());
        }
        for _ in 0..draw(4) {
            match draw(4) {
                0 | 1 => match (c.decode(), bits) {
                    (Ok(d), Some(b)) => {
                        let partial = draw(3) == 2;
                        let n = if partial { b.len() / 2 } else { b.len() + 1 };
                        let got: Vec<_> = d.take(n).collect();
                        let want = &b[..n.min(b.len())];
                        if got.len() != want.len() || got.iter().zip(want).any(|(x, y)| x.as_ref() != Ok(y)) {
                            fail(shown_class(), || format!("bits shown as {got:?}, bytes hold {want:?}"));
                        }
                    }
                    (Err(e), None) => {
                        if draw(2) == 0 {
                            return self.err(SimErr::Lib(e));
                        }
                    }
                    (r, b) => {
                        let r = r.map(|_| ());
                        fail(shown_class(), || format!("BitSequence::decode() gave {r:?}, bytes hold {b:?}"))
                    }
                },
                2 => match (c.bytes_after(), self.n.end) {
                    (Ok(b), Some(e)) => {
                        let p = self.end.wrapping_sub(b.len());
                        if p != e {
                            fail(Class::Handle, || format!("BitSequence::bytes_after() at {p}, bits end at {e}"));
                        }
                    }
                    (Err(_), None) => {}
                    (r, e) => fail(Class::Handle, || format!("BitSequence::bytes_after() gave {:?}, end is {e:?}", r.map(|b| b.len()))),
                },
                _ => {}
            }
        }
        if leaf_reject() {
            return self.err(reject());
        }
        self.ok(vec![])
    }
}
