//! Reference meaning of bytes: registry + type id + bytes -> tree of values with spans, or the exact
//! place where the bytes stop being an encoding of the type. Written from the SCALE specification;
//! never calls scale-decode or parity-scale-codec.

use crate::ty::*;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    Bool(bool),
    Char(char),
    U(u128),
    I(i128),
    W([u8; 32]),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Eof,
    /// Compact integer malformed (not minimal, too large, truncated).
    Compact,
    Bool(u8),
    Char(u32),
    Variant(u8),
    /// The type cannot be compact encoded.
    NotCompact,
    /// The type information is unavailable.
    Down(Tid, ResFault),
    /// Nesting beyond the model's limit (never reached on generated types).
    TooDeep,
}

#[derive(Clone, Debug)]
pub enum K {
    Bad(Bad),
    Prim(Primitive, PV),
    Str { len: usize, from: usize, text: Option<String> },
    Bits { store: BitsStoreFormat, order: BitsOrderFormat, bits: Option<Vec<bool>> },
    List { seq: bool, el: Tid, len: u64, first: usize, items: Vec<Node> },
    Tuple { tids: Vec<Tid>, items: Vec<Node> },
    Comp { path: Vec<String>, fields: Vec<Fld>, items: Vec<Node> },
    Var { ty: Tid, vi: usize, fields: Vec<Fld>, items: Vec<Node> },
}

#[derive(Clone, Debug)]
pub struct Node {
    /// Declared type id, and the id after unwrapping `Compact<..>`.
    pub tid: Tid,
    pub inner: Tid,
    /// Entered in compact mode (from an enclosing compact wrapper), and effective mode.
    pub entered_compact: bool,
    pub compact: bool,
    pub start: usize,
    /// None: the bytes are not a complete valid encoding.
    pub end: Option<usize>,
    pub k: K,
}

impl Node {
    pub fn items(&self) -> &[Node] {
        match &self.k {
            K::List { items, .. } | K::Tuple { items, .. } | K::Comp { items, .. } | K::Var { items, .. } => items,
            _ => &[],
        }
    }
    pub fn ok(&self) -> bool {
        self.end.is_some()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for i in self.items() {
            i.walk(f);
        }
    }
    /// The first defect in decoding order.
    pub fn first_bad(&self) -> Option<&Node> {
        if self.ok() {
            return None;
        }
        if let K::Bad(_) | K::Bits { .. } = self.k {
            return Some(self);
        }
        self.items().iter().find_map(|i| i.first_bad()).or(Some(self))
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    pub fn depth(&self) -> usize {
        1 + self.items().iter().map(|i| i.depth()).max().unwrap_or(0)
    }
}

pub struct Interp<'a> {
    pub reg: &'a Reg,
    pub bytes: &'a [u8],
    pub down: &'a BTreeMap<Tid, ResFault>,
    /// Node budget; running out sets `bomb` (mostly a list of very many items that occupy no bytes).
    pub budget: usize,
    pub bomb: bool,
}

pub static NO_FAULTS: BTreeMap<Tid, ResFault> = BTreeMap::new();

pub fn interp(reg: &Reg, tid: Tid, bytes: &[u8], at: usize) -> (Node, bool) {
    interp_down(reg, tid, bytes, at, &NO_FAULTS)
}
pub fn interp_down(
    reg: &Reg,
    tid: Tid,
    bytes: &[u8],
    at: usize,
    down: &BTreeMap<Tid, ResFault>,
) -> (Node, bool) {
    let mut i = Interp { reg, bytes, down, budget: 200_000, bomb: false };
    let n = i.go(tid, at, false, 0);
    (n, i.bomb)
}

/// SCALE compact integer: value and bytes used. `max_bits` is the width of the target.
pub fn compact_int(b: &[u8], max_bits: u32) -> Result<(u128, usize), Bad> {
    let b0 = *b.first().ok_or(Bad::Eof)?;
    let fits = |v: u128| max_bits == 128 || v < (1u128 << max_bits);
    match b0 & 3 {
        0 => Ok(((b0 >> 2) as u128, 1)),
        1 => {
            let b = b.get(..2).ok_or(Bad::Eof)?;
            let v = (u16::from_le_bytes([b[0], b[1]]) >> 2) as u128;
            // minimal encoding only
            if v > 63 && fits(v) {
                Ok((v, 2))
            } else {
                Err(Bad::Compact)
            }
        }
        2 => {
            if max_bits == 8 {
                return Err(Bad::Compact);
            }
            let b = b.get(..4).ok_or(Bad::Eof)?;
            let v = (u32::from_le_bytes([b[0], b[1], b[2], b[3]]) >> 2) as u128;
            if v > 0x3fff && fits(v) {
                Ok((v, 4))
            } else {
                Err(Bad::Compact)
            }
        }
        _ => {
            if max_bits <= 16 {
                return Err(Bad::Compact);
            }
            let n = (b0 >> 2) as usize + 4;
            if n > 16 || n * 8 > max_bits as usize {
                return Err(Bad::Compact);
            }
            let b = b.get(1..1 + n).ok_or(Bad::Eof)?;
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            // minimal: no shorter mode or byte count would do
            let min_ok = if n == 4 { v > (u32::MAX >> 2) as u128 } else { b[n - 1] != 0 };
            if min_ok {
                Ok((v, n + 1))
            } else {
                Err(Bad::Compact)
            }
        }
    }
}

pub fn prim_bits(p: Primitive) -> Option<(bool, u32)> {
    Some(match p {
        Primitive::U8 => (false, 8),
        Primitive::U16 => (false, 16),
        Primitive::U32 => (false, 32),
        Primitive::U64 => (false, 64),
        Primitive::U128 => (false, 128),
        Primitive::I8 => (true, 8),
        Primitive::I16 => (true, 16),
        Primitive::I32 => (true, 32),
        Primitive::I64 => (true, 64),
        Primitive::I128 => (true, 128),
        _ => return None,
    })
}

impl<'a> Interp<'a> {
    fn take(&self, at: usize, n: usize) -> Result<&'a [u8], Bad> {
        let e = at.checked_add(n).ok_or(Bad::Eof)?;
        self.bytes.get(at..e).ok_or(Bad::Eof)
    }

    pub fn go(&mut self, tid: Tid, at: usize, compact: bool, depth: usize) -> Node {
        let mut node = Node {
            tid,
            inner: tid,
            entered_compact: compact,
            compact,
            start: at,
            end: None,
            k: K::Bad(Bad::TooDeep),
        };
        if depth > 120 || self.budget == 0 {
            // deeper than a stack is good for, or more than a run has time for: not for judging
            // (see known findings)
            self.bomb = true;
            return node;
        }
        self.budget -= 1;
        // Unwrap Compact<Compact<..>>.
        let ty = loop {
            if let Some(f) = self.down.get(&node.inner) {
                node.k = K::Bad(Bad::Down(node.inner, f.clone()));
                return node;
            }
            match self.reg.get(node.inner) {
                None => {
                    node.k = K::Bad(Bad::Down(node.inner, ResFault::NotFound));
                    return node;
                }
                Some(Ty::Compact(i)) => {
                    node.compact = true;
                    node.inner = *i;
                }
                Some(t) => break t,
            }
        };
        match self.body(ty, &mut node, depth) {
            Ok((k, end)) => {
                node.k = k;
                node.end = end;
            }
            Err(b) => node.k = K::Bad(b),
        }
        node
    }

    fn body(&mut self, ty: &'a Ty, n: &mut Node, depth: usize) -> Result<(K, Option<usize>), Bad> {
        let at = n.start;
        let rest = &self.bytes[at..];
        let only_wrappers = |ok: bool| if n.compact && !ok { Err(Bad::NotCompact) } else { Ok(()) };
        match ty {
            Ty::Compact(_) => unreachable!(),
            Ty::Prim(p) => {
                if n.compact {
                    return match prim_bits(*p) {
                        Some((false, w)) => {
                            let (v, used) = compact_int(rest, w)?;
                            Ok((K::Prim(*p, PV::U(v)), Some(at + used)))
                        }
                        _ => Err(Bad::NotCompact),
                    };
                }
                if let Some((signed, w)) = prim_bits(*p) {
                    let nb = (w / 8) as usize;
                    let b = self.take(at, nb)?;
                    let mut v = 0u128;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    let pv = if signed {
                        PV::I(((v << (128 - w)) as i128) >> (128 - w))
                    } else {
                        PV::U(v)
                    };
                    return Ok((K::Prim(*p, pv), Some(at + nb)));
                }
                match p {
                    Primitive::Bool => match self.take(at, 1)?[0] {
                        0 => Ok((K::Prim(*p, PV::Bool(false)), Some(at + 1))),
                        1 => Ok((K::Prim(*p, PV::Bool(true)), Some(at + 1))),
                        x => Err(Bad::Bool(x)),
                    },
                    Primitive::Char => {
                        let b = self.take(at, 4)?;
                        let v = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                        let c = char::from_u32(v).ok_or(Bad::Char(v))?;
                        Ok((K::Prim(*p, PV::Char(c)), Some(at + 4)))
                    }
                    Primitive::U256 | Primitive::I256 => {
                        let b = self.take(at, 32)?;
                        let mut w = [0; 32];
                        w.copy_from_slice(b);
                        Ok((K::Prim(*p, PV::W(w)), Some(at + 32)))
                    }
                    Primitive::Str => {
                        let (len, used) = compact_int(rest, 32)?;
                        let b = self.take(at + used, len as usize)?;
                        Ok((
                            K::Str {
                                len: len as usize,
                                from: at + used,
                                text: std::str::from_utf8(b).ok().map(|s| s.to_string()),
                            },
                            Some(at + used + len as usize),
                        ))
                    }
                    _ => unreachable!(),
                }
            }
            Ty::Bits(store, order) => {
                only_wrappers(false)?;
                let w = match store {
                    BitsStoreFormat::U8 => 1,
                    BitsStoreFormat::U16 => 2,
                    BitsStoreFormat::U32 => 4,
                    BitsStoreFormat::U64 => 8usize,
                };
                let res = compact_int(rest, 32).and_then(|(len, used)| {
                    let len = len as usize;
                    let nb = len.div_ceil(w * 8) * w;
                    let b = self.take(at + used, nb)?;
                    let mut bits = Vec::with_capacity(len);
                    for i in 0..len {
                        let (el, pos) = (i / (w * 8), i % (w * 8));
                        // element `el` is a little endian integer of w bytes
                        let pos = match order {
                            BitsOrderFormat::Lsb0 => pos,
                            BitsOrderFormat::Msb0 => w * 8 - 1 - pos,
                        };
                        let byte = b[el * w + pos / 8];
                        bits.push((byte >> (pos % 8)) & 1 == 1);
                    }
                    Ok((bits, at + used + nb))
                });
                let (bits, end) = match res {
                    Ok((b, e)) => (Some(b), Some(e)),
                    Err(_) => (None, None),
                };
                Ok((K::Bits { store: *store, order: *order, bits }, end))
            }
            Ty::Seq(_, el) => {
                only_wrappers(false)?;
                let (len, used) = compact_int(rest, 64)?;
                // a length beyond the machine's word is refused
                let len = usize::try_from(len).map_err(|_| Bad::Eof)?;
                let (items, end) = self.list(*el, len as u64, at + used, depth);
                Ok((K::List { seq: true, el: *el, len: len as u64, first: at + used, items }, end))
            }
            Ty::Arr(el, len) => {
                only_wrappers(false)?;
                let (items, end) = self.list(*el, *len as u64, at, depth);
                Ok((K::List { seq: false, el: *el, len: *len as u64, first: at, items }, end))
            }
            Ty::Tuple(tids) => {
                only_wrappers(tids.len() == 1)?;
                let (items, end) = self.fields(tids.iter().copied(), at, n.compact, depth);
                Ok((K::Tuple { tids: tids.clone(), items }, end))
            }
            Ty::Comp(path, fields) => {
                only_wrappers(fields.len() == 1)?;
                let (items, end) = self.fields(fields.iter().map(|f| f.tid), at, n.compact, depth);
                Ok((K::Comp { path: path.clone(), fields: fields.clone(), items }, end))
            }
            Ty::Var(_, vars) => {
                only_wrappers(false)?;
                let idx = *rest.first().ok_or(Bad::Eof)?;
                let vi = vars.iter().position(|v| v.idx == idx).ok_or(Bad::Variant(idx))?;
                let fields = &vars[vi].fields;
                let (items, end) = self.fields(fields.iter().map(|f| f.tid), at + 1, false, depth);
                Ok((K::Var { ty: n.inner, vi, fields: fields.clone(), items }, end))
            }
        }
    }

    fn list(&mut self, el: Tid, len: u64, mut at: usize, depth: usize) -> (Vec<Node>, Option<usize>) {
        let mut items = vec![];
        for _ in 0..len {
            let it = self.go(el, at, false, depth + 1);
            let e = it.end;
            items.push(it);
            match e {
                Some(e) => at = e,
                None => return (items, None),
            }
        }
        (items, Some(at))
    }

    fn fields(
        &mut self,
        tids: impl Iterator<Item = Tid>,
        mut at: usize,
        compact: bool,
        depth: usize,
    ) -> (Vec<Node>, Option<usize>) {
        let mut items = vec![];
        for t in tids {
            let it = self.go(t, at, compact, depth + 1);
            let e = it.end;
            items.push(it);
            match e {
                Some(e) => at = e,
                None => return (items, None),
            }
        }
        (items, Some(at))
    }

    /// A field list on its own (no enclosing type), as for `decode_as_fields`.
    pub fn field_list(&mut self, fields: &[Fld], at: usize) -> Node {
        let (items, end) = self.fields(fields.iter().map(|f| f.tid), at, false, 0);
        Node {
            tid: 0,
            inner: 0,
            entered_compact: false,
            compact: false,
            start: at,
            end,
            k: K::Comp { path: vec![], fields: fields.to_vec(), items },
        }
    }
}
