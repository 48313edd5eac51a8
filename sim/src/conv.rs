//! Reference meaning of a typed decode: target description + reference tree -> the value the
//! documentation promises, or every place where the source does not fit the target.

use crate::refm::{Node, K, PV};
use crate::ty::*;
use scale_decode::error::ErrorKind;
use scale_decode::visitor::{DecodeError, Unexpected};
use std::collections::BTreeMap;

/// Description of a target type.
#[derive(Clone, Debug)]
pub enum TD {
    Int { signed: bool, w: u32, nz: bool },
    Bool,
    Char,
    Str,
    Bits,
    Unit, // PhantomData
    Tup(Vec<TD>),
    One(Box<TD>),
    List(Box<TD>),
    Sorted(Box<TD>, bool),
    Arr(Box<TD>, usize),
    Map(Box<TD>),
    Opt(Box<TD>),
    Res(Box<TD>, Box<TD>),
    Wrap(Box<TD>),
    Dur,
    Range(Box<TD>),
    Struct(Flds),
    Enum(Vec<(&'static str, Flds)>),
    /// A type that contains itself.
    Rec(&'static str, fn() -> TD),
    /// A hand-written visitor that takes unsigned numbers and refuses some of them.
    Picky,
    /// A hand-written visitor that reads one item and leaves the rest.
    First(Box<TD>),
}
#[derive(Clone, Debug)]
pub enum Flds {
    Unit,
    Named(Vec<(&'static str, TD, bool)>),
    Unnamed(Vec<(TD, bool)>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum TV {
    U(u128),
    I(i128),
    B(bool),
    C(char),
    S(String),
    Bits(Vec<bool>),
    L(Vec<TV>),
    M(BTreeMap<String, TV>),
    V(&'static str, Vec<TV>),
    D(u64, u32),
    /// A skipped field: whatever its default is.
    Dflt,
}

pub const PICKY: &str = "this number is not wanted";
pub const NOTHING: &str = "there is no first item";

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    F(String),
    I(usize),
    V(String),
    /// may or may not be listed
    MaybeV(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum MK {
    Range(String),
    Unexpected(Vec<Unexpected>),
    Variant { got: String, expected: Vec<&'static str> },
    Len { actual: usize, expected: usize },
    NoField(String),
    Utf8,
    Duration,
    /// What a hand-written visitor says.
    Custom(&'static str),
    /// The bytes are bad here; any error will do.
    Bytes,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Misfit {
    pub path: Vec<Seg>,
    pub kind: MK,
}

pub type Conv = Result<TV, Vec<Misfit>>;

pub struct Cv<'a> {
    pub reg: &'a Reg,
}

fn one(kind: MK) -> Conv {
    Err(vec![Misfit { path: vec![], kind }])
}
fn at(seg: Seg, r: Conv) -> Conv {
    r.map_err(|v| {
        v.into_iter()
            .map(|mut m| {
                m.path.insert(0, seg.clone());
                m
            })
            .collect()
    })
}

pub fn unexpected_of(n: &Node) -> Vec<Unexpected> {
    use scale_type_resolver::Primitive::*;
    let u = match &n.k {
        K::Bad(_) => return vec![],
        K::Prim(p, _) => match p {
            Bool => Unexpected::Bool,
            Char => Unexpected::Char,
            U8 => Unexpected::U8,
            U16 => Unexpected::U16,
            U32 => Unexpected::U32,
            U64 => Unexpected::U64,
            U128 => Unexpected::U128,
            U256 => Unexpected::U256,
            I8 => Unexpected::I8,
            I16 => Unexpected::I16,
            I32 => Unexpected::I32,
            I64 => Unexpected::I64,
            I128 => Unexpected::I128,
            I256 => Unexpected::I256,
            Str => Unexpected::Str,
        },
        K::Str { .. } => Unexpected::Str,
        K::Bits { .. } => Unexpected::Bitsequence,
        K::List { seq: true, .. } => Unexpected::Sequence,
        K::List { .. } => Unexpected::Array,
        K::Tuple { .. } => Unexpected::Tuple,
        K::Comp { .. } => Unexpected::Composite,
        K::Var { .. } => Unexpected::Variant,
    };
    vec![u]
}

/// Values of a single-field wrapper are seen through.
fn inner(n: &Node) -> Option<&Node> {
    match &n.k {
        K::Tuple { items, .. } | K::Comp { items, .. } if items.len() == 1 => Some(&items[0]),
        _ => None,
    }
}

impl<'a> Cv<'a> {
    /// `n` must be well formed.
    pub fn conv(&self, td: &TD, n: &Node) -> Conv {
        let unexp = || one(MK::Unexpected(unexpected_of(n)));
        match td {
            TD::Wrap(t) => self.conv(t, n),
            TD::Rec(_, t) => self.conv(&t(), n),
            TD::Picky => match &n.k {
                K::Prim(p, PV::U(v)) if *p != scale_type_resolver::Primitive::U256 => {
                    if v % 16 == 13 {
                        Err(vec![Misfit { path: vec![Seg::F("own".into())], kind: MK::Custom(PICKY) }])
                    } else {
                        Ok(TV::U(*v))
                    }
                }
                _ => unexp(),
            },
            TD::First(t) => match &n.k {
                K::Tuple { items, .. } | K::Comp { items, .. } | K::List { items, .. } => match items.first() {
                    Some(i) => Ok(TV::L(vec![at(Seg::I(0), self.conv(t, i))?])),
                    None => one(MK::Custom(NOTHING)),
                },
                _ => unexp(),
            },
            TD::Int { signed, w, nz } => match &n.k {
                K::Prim(_, PV::U(v)) => int(*signed, *w, *nz, false, *v),
                K::Prim(_, PV::I(v)) => {
                    if *v < 0 {
                        int(*signed, *w, *nz, true, v.unsigned_abs())
                    } else {
                        int(*signed, *w, *nz, false, *v as u128)
                    }
                }
                _ => self.through(td, n),
            },
            TD::Bool => match &n.k {
                K::Prim(_, PV::Bool(b)) => Ok(TV::B(*b)),
                _ => self.through(td, n),
            },
            TD::Char => match &n.k {
                K::Prim(_, PV::Char(b)) => Ok(TV::C(*b)),
                _ => self.through(td, n),
            },
            TD::Str => match &n.k {
                K::Str { text: Some(t), .. } => Ok(TV::S(t.clone())),
                K::Str { text: None, .. } => one(MK::Utf8),
                _ => self.through(td, n),
            },
            TD::Bits => match &n.k {
                K::Bits { bits: Some(b), .. } => Ok(TV::Bits(b.clone())),
                _ => self.through(td, n),
            },
            TD::Unit => match &n.k {
                K::Tuple { items, .. } | K::Comp { items, .. } if items.is_empty() => Ok(TV::L(vec![])),
                _ => unexp(),
            },
            TD::Tup(ts) => self.tup(&ts.iter().collect::<Vec<_>>(), n),
            TD::One(t) => {
                let direct = !matches!(self.reg.get(n.tid), Some(Ty::Comp(..) | Ty::Tuple(_)));
                if direct {
                    Ok(TV::L(vec![self.conv(t, n)?]))
                } else {
                    self.tup(&[t], n)
                }
            }
            TD::Range(t) => self.tup(&[t, t], n),
            TD::Dur => {
                let (a, b) = (TD::Int { signed: false, w: 64, nz: false }, TD::Int { signed: false, w: 32, nz: false });
                match self.tup(&[&a, &b], n)? {
                    TV::L(v) => match (&v[0], &v[1]) {
                        (TV::U(s), TV::U(ns)) => {
                            match (*s as u64).checked_add((*ns / 1_000_000_000) as u64) {
                                Some(s) => Ok(TV::D(s, (*ns % 1_000_000_000) as u32)),
                                None => one(MK::Duration),
                            }
                        }
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                }
            }
            TD::List(t) => match &n.k {
                K::List { items, .. } => Ok(TV::L(self.all(t, items)?)),
                _ => self.through(td, n),
            },
            TD::Sorted(t, set) => match &n.k {
                K::List { items, .. } => {
                    let mut v = self.all(t, items)?;
                    v.sort();
                    if *set {
                        v.dedup();
                    }
                    Ok(TV::L(v))
                }
                _ => self.through(td, n),
            },
            TD::Arr(t, len) => match &n.k {
                K::List { items, .. } => {
                    let r = self.all(t, items);
                    let mut bad = vec![];
                    if items.len() != *len {
                        bad.push(Misfit { path: vec![], kind: MK::Len { actual: items.len(), expected: *len } });
                    }
                    match r {
                        Ok(v) if bad.is_empty() => Ok(TV::L(v)),
                        Ok(_) => Err(bad),
                        Err(mut e) => {
                            e.extend(bad);
                            Err(e)
                        }
                    }
                }
                _ => self.through(td, n),
            },
            TD::Map(t) => match &n.k {
                K::Comp { fields, items, .. } => {
                    let mut m = BTreeMap::new();
                    let mut bad = vec![];
                    for (f, i) in fields.iter().zip(items) {
                        let Some(name) = &f.name else { continue };
                        match at(Seg::F(name.clone()), self.conv(t, i)) {
                            Ok(v) => {
                                m.insert(name.clone(), v);
                            }
                            Err(e) => bad.extend(e),
                        }
                    }
                    if bad.is_empty() {
                        Ok(TV::M(m))
                    } else {
                        Err(bad)
                    }
                }
                _ => unexp(),
            },
            TD::Opt(t) => match &n.k {
                K::Var { items, .. } => {
                    let name = self.var(n);
                    match (name.as_str(), items.len()) {
                        ("Some", 1) => {
                            Ok(TV::V("Some", vec![at(Seg::V("Some".into()), self.conv(t, &items[0]))?]))
                        }
                        ("None", 0) => Ok(TV::V("None", vec![])),
                        _ => one(MK::Variant { got: name, expected: vec!["Some", "None"] }),
                    }
                }
                _ => self.through(td, n),
            },
            TD::Res(t, e) => match &n.k {
                K::Var { items, .. } => {
                    let name = self.var(n);
                    match (name.as_str(), items.len()) {
                        ("Ok", 1) => Ok(TV::V("Ok", vec![at(Seg::V("Ok".into()), self.conv(t, &items[0]))?])),
                        ("Err", 1) => {
                            Ok(TV::V("Err", vec![at(Seg::V("Err".into()), self.conv(e, &items[0]))?]))
                        }
                        _ => one(MK::Variant { got: name, expected: vec!["Ok", "Err"] }),
                    }
                }
                _ => self.through(td, n),
            },
            TD::Struct(f) => match &n.k {
                K::Tuple { items, .. } => Ok(TV::V("", self.flds(f, None, items, false)?)),
                K::Comp { fields, items, .. } => Ok(TV::V("", self.flds(f, Some(fields), items, false)?)),
                _ => unexp(),
            },
            TD::Enum(vs) => match &n.k {
                K::Var { items, fields, .. } => {
                    let name = self.var(n);
                    match vs.iter().find(|v| v.0 == name) {
                        Some((vn, f)) => {
                            let r = self.flds(f, Some(fields), items, true).map(|v| TV::V(vn, v));
                            at(Seg::MaybeV(name), r)
                        }
                        None => one(MK::Variant { got: name, expected: vs.iter().map(|v| v.0).collect() }),
                    }
                }
                _ => self.through(td, n),
            },
        }
    }

    fn var(&self, n: &Node) -> String {
        if let K::Var { ty, vi, .. } = &n.k {
            if let Some(Ty::Var(_, v)) = self.reg.get(*ty) {
                return v[*vi].name.clone();
            }
        }
        String::new()
    }
    fn through(&self, td: &TD, n: &Node) -> Conv {
        match inner(n) {
            Some(i) => self.conv(td, i),
            None => one(MK::Unexpected(unexpected_of(n))),
        }
    }
    fn all(&self, t: &TD, items: &[Node]) -> Result<Vec<TV>, Vec<Misfit>> {
        let mut v = vec![];
        let mut bad: Vec<Misfit> = vec![];
        for (i, n) in items.iter().enumerate() {
            match at(Seg::I(i), self.conv(t, n)) {
                Ok(x) => v.push(x),
                Err(e) => {
                    if bad.len() < 200 {
                        bad.extend(e)
                    }
                }
            }
        }
        if bad.is_empty() {
            Ok(v)
        } else {
            Err(bad)
        }
    }
    fn tup(&self, ts: &[&TD], n: &Node) -> Conv {
        match &n.k {
            K::Tuple { items, .. } | K::Comp { items, .. } => self.tup_items(ts, items),
            _ => one(MK::Unexpected(unexpected_of(n))),
        }
    }
    pub fn tup_items(&self, ts: &[&TD], items: &[Node]) -> Conv {
        if items.len() != ts.len() {
            return one(MK::Len { actual: items.len(), expected: ts.len() });
        }
        let mut v = vec![];
        let mut bad = vec![];
        for (i, (t, n)) in ts.iter().zip(items).enumerate() {
            match at(Seg::I(i), self.conv(t, n)) {
                Ok(x) => v.push(x),
                Err(e) => bad.extend(e),
            }
        }
        if bad.is_empty() {
            Ok(TV::L(v))
        } else {
            Err(bad)
        }
    }
    /// Fields of a derived struct or variant from a source's fields.
    pub fn flds(
        &self,
        f: &Flds,
        src: Option<&[Fld]>,
        items: &[Node],
        variant: bool,
    ) -> Result<Vec<TV>, Vec<Misfit>> {
        let mut v = vec![];
        let mut bad = vec![];
        let len = |want: usize| vec![Misfit { path: vec![], kind: MK::Len { actual: items.len(), expected: want } }];
        match f {
            Flds::Unit => {
                if !variant && !items.is_empty() {
                    return Err(len(0));
                }
            }
            Flds::Unnamed(ts) => {
                let want = ts.iter().filter(|t| !t.1).count();
                if items.len() != want {
                    return Err(len(want));
                }
                let mut it = items.iter();
                for (i, (t, skip)) in ts.iter().enumerate() {
                    if *skip {
                        v.push(TV::Dflt);
                        continue;
                    }
                    match at(Seg::I(i), self.conv(t, it.next().unwrap())) {
                        Ok(x) => v.push(x),
                        Err(e) => bad.extend(e),
                    }
                }
            }
            Flds::Named(ts) => {
                let by_name = match src {
                    Some(s) => s.iter().all(|f| f.name.is_some()),
                    None => false,
                };
                let want = ts.iter().filter(|t| !t.2).count();
                if !by_name && items.len() != want {
                    return Err(len(want));
                }
                let mut it = items.iter();
                for (name, t, skip) in ts {
                    if *skip {
                        v.push(TV::Dflt);
                        continue;
                    }
                    let n = if by_name {
                        let p = src.unwrap().iter().rposition(|f| f.name.as_deref() == Some(name));
                        match p {
                            Some(p) => &items[p],
                            None => {
                                bad.push(Misfit { path: vec![], kind: MK::NoField(name.to_string()) });
                                continue;
                            }
                        }
                    } else {
                        it.next().unwrap()
                    };
                    match at(Seg::F(name.to_string()), self.conv(t, n)) {
                        Ok(x) => v.push(x),
                        Err(e) => bad.extend(e),
                    }
                }
            }
        }
        if bad.is_empty() {
            Ok(v)
        } else {
            Err(bad)
        }
    }
}

fn int(signed: bool, w: u32, nz: bool, neg: bool, mag: u128) -> Conv {
    let text = || if neg { format!("-{mag}") } else { mag.to_string() };
    let fits = if signed {
        let lim = 1u128 << (w - 1);
        if neg {
            mag <= lim
        } else {
            mag < lim
        }
    } else {
        !neg && (w == 128 || mag < (1u128 << w))
    };
    if !fits || (nz && mag == 0) {
        return one(MK::Range(text()));
    }
    Ok(if signed {
        TV::I(if neg { (mag as i128).wrapping_neg() } else { mag as i128 })
    } else {
        TV::U(mag)
    })
}

/// Does this error describe that misfit?
pub fn kind_matches(k: &MK, e: &ErrorKind) -> bool {
    match (k, e) {
        (MK::Range(v), ErrorKind::NumberOutOfRange { value }) => v == value,
        (MK::Unexpected(u), ErrorKind::VisitorDecodeError(DecodeError::Unexpected(x))) => {
            u.is_empty() || u.contains(x)
        }
        (MK::Variant { got, expected }, ErrorKind::CannotFindVariant { got: g, expected: x }) => {
            got == g && expected == x
        }
        (MK::Len { actual, expected }, ErrorKind::WrongLength { actual_len, expected_len }) => {
            actual == actual_len && expected == expected_len
        }
        (MK::NoField(n), ErrorKind::CannotFindField { name }) => n == name,
        (MK::Custom(t), ErrorKind::Custom(x)) => x.to_string() == *t,
        (MK::Utf8, ErrorKind::VisitorDecodeError(DecodeError::InvalidStr(_))) => true,
        (MK::Duration | MK::Bytes, _) => true,
        _ => false,
    }
}
pub fn path_matches(path: &[Seg], got: &[scale_decode::error::Location]) -> bool {
    use scale_decode::error::Location as L;
    match path.split_first() {
        None => got.is_empty(),
        Some((s, rest)) => {
            let eq = |l: L| got.first() == Some(&l) && path_matches(rest, &got[1..]);
            match s {
                Seg::F(n) => eq(L::field(n.clone())),
                Seg::I(i) => eq(L::idx(*i)),
                Seg::V(n) => eq(L::variant(n.clone())),
                Seg::MaybeV(n) => eq(L::variant(n.clone())) || path_matches(rest, got),
            }
        }
    }
}
pub fn show_path(p: &[Seg]) -> String {
    p.iter()
        .map(|s| match s {
            Seg::F(n) => n.clone(),
            Seg::I(i) => format!("[{i}]"),
            Seg::V(n) => format!("({n})"),
            Seg::MaybeV(n) => format!("({n})?"),
        })
        .collect::<Vec<_>>()
        .join(".")
}
/// Display of a path as `Context::path()` documents it.
pub fn display_path(p: &[scale_decode::error::Location]) -> String {
    // Rebuilt through the public API from one-element contexts.
    p.iter()
        .map(|l| {
            let mut c = scale_decode::error::Context::new();
            c.push(l.clone());
            c.path().to_string()
        })
        .collect::<Vec<_>>()
        .join(".")
}
