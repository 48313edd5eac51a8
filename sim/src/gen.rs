//! Random type descriptions, values, byte streams and damage, all drawn from the tape.

use crate::refm::{self, Node, K};
use crate::sim::{self, chance, draw, draw64, pick, weighted};
use crate::ty::*;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};
use std::collections::BTreeMap;

pub const NAMES: &[&str] =
    &["a", "b", "c", "value", "id", "x0", "x1", "inner", "Some", "to", "amount", "who", "f12", "", "ключ", "r#type", "_", "_x"];

pub const PRIMS: &[Primitive] = &[
    Primitive::U8,
    Primitive::U32,
    Primitive::Bool,
    Primitive::Str,
    Primitive::U16,
    Primitive::U64,
    Primitive::U128,
    Primitive::Char,
    Primitive::I8,
    Primitive::I16,
    Primitive::I32,
    Primitive::I64,
    Primitive::I128,
    Primitive::U256,
    Primitive::I256,
];
pub const UPRIMS: &[Primitive] =
    &[Primitive::U32, Primitive::U8, Primitive::U16, Primitive::U64, Primitive::U128];

/// Hints that steer the value generator for one type id.
#[derive(Clone, Debug, Default)]
pub struct Hint {
    pub len: Option<usize>,
    /// Once in so many values, the bounds do not hold.
    pub slip: u64,
    pub lo: Option<i128>,
    pub hi: Option<u128>,
    pub variants: Option<Vec<usize>>,
    pub ascii: bool,
}
pub type Hints = BTreeMap<Tid, Hint>;

#[derive(Clone, Copy)]
pub struct TyCfg {
    pub depth: u32,
    pub bad_compact: bool,
    pub zero_lists: bool,
    pub wide: bool,
}
impl TyCfg {
    pub fn d(depth: u32) -> TyCfg {
        TyCfg { depth, bad_compact: false, zero_lists: true, wide: true }
    }
}

fn path() -> Vec<String> {
    match draw(12) {
        0..=2 => vec!["T".into()],
        3..=5 => vec![],
        6 | 7 => vec!["m".into(), "T".into()],
        8 => (0..1 + draw(40)).map(|i| format!("m{i}")).collect(),
        _ => ["a", "b", "c", "d", "e", "f", "Deep"].iter().map(|s| s.to_string()).collect(),
    }
}

/// Distinct names for n fields; style 0 unnamed, 1 named, 2 mixed.
pub fn fields(reg: &mut Reg, tids: Vec<Tid>, style: u64) -> Vec<Fld> {
    let _ = &reg;
    let off = draw(NAMES.len() as u64) as usize;
    tids.into_iter()
        .enumerate()
        .map(|(i, tid)| {
            let named = match style {
                0 => false,
                1 => true,
                _ => draw(2) == 0,
            };
            let base = NAMES[(off + i) % NAMES.len()];
            let name = if i < NAMES.len() { base.to_string() } else { format!("{base}{i}") };
            Fld { name: named.then_some(name), tid }
        })
        .collect()
}

fn nfields(c: TyCfg) -> usize {
    match weighted(&[30, 20, 8, 8, 4, if c.wide { 2 } else { 0 }]) {
        0 => 2,
        1 => 1,
        2 => 3,
        3 => 0,
        4 => 4 + draw(4) as usize,
        _ => 15 + draw(6) as usize,
    }
}

/// A leaf below many layers.
fn tower(reg: &mut Reg, c: TyCfg) -> Tid {
    let mut t = gen_ty(reg, TyCfg { depth: 1, wide: false, ..c });
    let n = 3 + draw(45);
    let only = if draw(2) == 0 { Some(draw(6)) } else { None };
    sim::probe("deep_nesting");
    for _ in 0..n {
        t = match only.unwrap_or_else(|| draw(6)) {
            0 => reg.add(Ty::Tuple(vec![t])),
            1 => {
                let f = fields(reg, vec![t], 1);
                reg.add(Ty::Comp(vec!["T".into()], f))
            }
            2 => {
                let f = fields(reg, vec![t], 0);
                reg.add(Ty::Var(vec!["Option".into()], vec![VarDef { name: "Some".into(), idx: 1, fields: f }]))
            }
            3 => reg.add(Ty::Arr(t, 1)),
            4 => {
                let u = reg.add(Ty::Prim(Primitive::U8));
                reg.add(Ty::Tuple(vec![u, t]))
            }
            _ => {
                let u = reg.add(Ty::Prim(Primitive::Bool));
                let f = fields(reg, vec![t, u], 1);
                reg.add(Ty::Comp(vec![], f))
            }
        };
    }
    t
}
/// More fields than a byte counts.
fn giant(reg: &mut Reg) -> Tid {
    sim::probe("over_255_fields");
    let ps = [Primitive::U8, Primitive::Bool, Primitive::U16];
    let n = 254 + draw(6) as usize;
    let ids: Vec<Tid> = ps.iter().map(|p| reg.add(Ty::Prim(*p))).collect();
    let k = draw(3) as usize;
    let t: Vec<Tid> = (0..n).map(|i| ids[(i * i + k) % 3]).collect();
    match draw(4) {
        0 => reg.add(Ty::Tuple(t)),
        1 => {
            let f = t.into_iter().enumerate().map(|(i, tid)| Fld { name: Some(format!("n{i}")), tid }).collect();
            reg.add(Ty::Comp(vec!["Big".into()], f))
        }
        2 => {
            let f = t.into_iter().map(|tid| Fld { name: None, tid }).collect();
            reg.add(Ty::Comp(vec!["Big".into()], f))
        }
        _ => {
            let v = t.into_iter().take(256).enumerate().map(|(i, tid)| VarDef {
                name: format!("V{i}"),
                idx: (i as u8).wrapping_mul(7),
                fields: vec![Fld { name: None, tid }],
            });
            let v = v.collect();
            reg.add(Ty::Var(vec!["Big".into()], v))
        }
    }
}

/// A type that contains itself, below a variant or a list.
fn knot(reg: &mut Reg, c: TyCfg) -> Tid {
    sim::probe("recursive_type");
    reg.rec = true;
    let me = reg.add(Ty::Tuple(vec![]));
    let sub = TyCfg { depth: draw(2) as u32, wide: false, ..c };
    // where it occurs within itself
    let again = |reg: &mut Reg| match draw(5) {
        0 => me,
        1 => reg.add(Ty::Tuple(vec![me])),
        2 => reg.add(Ty::Seq(vec!["Vec".into()], me)),
        3 => {
            let f = fields(reg, vec![me], 1);
            reg.add(Ty::Comp(vec!["Box".into()], f))
        }
        _ => {
            let f = vec![Fld { name: None, tid: me }];
            let v = vec![
                VarDef { name: "None".into(), idx: 0, fields: vec![] },
                VarDef { name: "Some".into(), idx: 1, fields: f },
            ];
            reg.add(Ty::Var(vec!["Option".into()], v))
        }
    };
    let base = *pick(&[0u8, 0, 9, 200]);
    let ty = match draw(4) {
        // a list of itself, possibly behind a wrapper
        0 => {
            let w = reg.add(Ty::Seq(vec![], me));
            let u = gen_ty(reg, TyCfg { depth: 0, ..sub });
            let f = fields(reg, vec![u, w], 1);
            Ty::Comp(vec!["Node".into()], f)
        }
        _ => {
            let mut vars = vec![];
            let n = 2 + draw(3);
            for i in 0..n {
                let mut t = vec![];
                if i == 0 || draw(2) == 0 {
                    t.push(gen_ty(reg, sub));
                }
                if i > 0 {
                    for _ in 0..1 + draw(2) {
                        t.push(again(reg));
                    }
                    if draw(3) == 0 {
                        t.push(gen_ty(reg, sub));
                    }
                }
                let style = draw(3);
                let f = fields(reg, t, style);
                vars.push(VarDef { name: format!("V{i}"), idx: base + i as u8, fields: f });
            }
            let p = path();
            Ty::Var(p, vars)
        }
    };
    reg.tys[me as usize] = ty;
    me
}

/// How many layers the smallest value of each type has, using the hinted variants if those ever end.
pub fn heights(reg: &Reg, hints: &Hints) -> Vec<u32> {
    let h = vec![u32::MAX; reg.tys.len()];
    lower(reg, None, lower(reg, Some(hints), h))
}
fn lower(reg: &Reg, hints: Option<&Hints>, mut h: Vec<u32>) -> Vec<u32> {
    let done: Vec<bool> = h.iter().map(|x| *x < u32::MAX).collect();
    loop {
        let mut more = false;
        for (i, t) in reg.tys.iter().enumerate() {
            if done[i] {
                continue;
            }
            let only = hints.and_then(|h| h.get(&(i as Tid))).and_then(|h| h.variants.as_ref()).filter(|l| !l.is_empty());
            let get = |t: &Tid| h.get(*t as usize).copied().unwrap_or(0);
            let all = |f: &[Fld]| f.iter().map(|f| get(&f.tid)).max().unwrap_or(0).saturating_add(1);
            let n = match t {
                Ty::Prim(_) | Ty::Bits(..) | Ty::Seq(..) | Ty::Arr(_, 0) => 0,
                Ty::Compact(t) | Ty::Arr(t, _) => get(t).saturating_add(1),
                Ty::Tuple(v) => v.iter().map(get).max().unwrap_or(0).saturating_add(1),
                Ty::Comp(_, f) => all(f),
                Ty::Var(_, v) => v
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| only.is_none_or(|l| l.contains(i)))
                    .map(|(_, v)| all(&v.fields))
                    .min()
                    .unwrap_or(0),
            };
            if n < h[i] {
                h[i] = n;
                more = true;
            }
        }
        if !more {
            return h;
        }
    }
}

pub fn gen_ty(reg: &mut Reg, c: TyCfg) -> Tid {
    if c.depth >= 1 && chance(1, 80) {
        return knot(reg, c);
    }
    if c.depth >= 2 && c.wide && chance(1, 120) {
        return if draw(3) == 2 { giant(reg) } else { tower(reg, c) };
    }
    let leaf = c.depth == 0;
    let k = if leaf { weighted(&[20, 4, 3]) } else { weighted(&[14, 6, 4, 12, 8, 8, 14, 12]) };
    let sub = TyCfg { depth: c.depth.saturating_sub(1), wide: c.wide && draw(3) == 0, ..c };
    match k {
        0 => {
            let p = *pick(PRIMS);
            reg.add(Ty::Prim(p))
        }
        1 => gen_compact(reg, c),
        2 => {
            let s = *pick(&[
                BitsStoreFormat::U8,
                BitsStoreFormat::U16,
                BitsStoreFormat::U32,
                BitsStoreFormat::U64,
            ]);
            let o = *pick(&[BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0]);
            reg.add(Ty::Bits(s, o))
        }
        3 => {
            let el = gen_ty(reg, sub);
            let p = path();
            reg.add(Ty::Seq(p, el))
        }
        4 => {
            let el = gen_ty(reg, sub);
            let n = match weighted(&[40, 24, 24, 12, 4, 2, 1]) {
                6 => 254 + draw(4) as usize,
                0 => 2,
                1 => 1,
                2 => 3,
                3 => 0,
                4 => 33,
                _ => 4 + draw(60) as usize,
            };
            let n = if n as u64 * reg.weight[el as usize] > 3000 { n.min(2) } else { n };
            reg.add(Ty::Arr(el, n))
        }
        5 => {
            let n = nfields(c);
            let t = (0..n).map(|_| gen_ty(reg, sub)).collect();
            reg.add(Ty::Tuple(t))
        }
        6 => {
            let n = nfields(c);
            let t: Vec<_> = (0..n).map(|_| gen_ty(reg, sub)).collect();
            let style = [1, 0, 1, 2][draw(4) as usize];
            let f = fields(reg, t, style);
            let p = path();
            reg.add(Ty::Comp(p, f))
        }
        _ => {
            let nv = match weighted(&[24, 2, 1]) {
                0 => 1 + draw(4) as usize,
                1 => 5 + draw(30) as usize,
                // a type without any value
                _ => !c.bad_compact as usize,
            };
            let base = *pick(&[0u64, 5, 250, 127]);
            let mut used = vec![];
            let mut vars = vec![];
            for i in 0..nv {
                let n = if nv < 5 && c.wide && chance(1, 40) { 15 + draw(5) as usize } else { *pick(&[1usize, 0, 2, 3]) };
                let sub = if nv < 5 { sub } else { TyCfg { depth: 0, ..sub } };
                let t: Vec<_> = (0..n).map(|_| gen_ty(reg, sub)).collect();
                let style = [1, 0, 2][draw(3) as usize];
                let f = fields(reg, t, style);
                let mut idx = if draw(3) == 0 { draw(256) as u8 } else { (base + i as u64) as u8 };
                while used.contains(&idx) {
                    idx = idx.wrapping_add(1);
                }
                used.push(idx);
                vars.push(VarDef { name: format!("V{i}"), idx, fields: f });
            }
            if chance(1, 3) {
                vars.reverse();
            }
            let p = path();
            reg.add(Ty::Var(p, vars))
        }
    }
}

/// A compact type: a number, or nested single-field wrappers around one.
pub fn gen_compact(reg: &mut Reg, c: TyCfg) -> Tid {
    let mut t = if c.bad_compact && chance(1, 8) {
        match draw(6) {
            0 => reg.add(Ty::Prim(Primitive::I32)),
            4 => {
                let p = *pick(PRIMS);
                reg.add(Ty::Prim(p))
            }
            5 => gen_ty(reg, TyCfg { depth: 1, wide: false, ..c }),
            1 => reg.add(Ty::Tuple(vec![])),
            2 => {
                let a = reg.add(Ty::Prim(Primitive::U8));
                reg.add(Ty::Tuple(vec![a, a]))
            }
            _ => {
                let a = reg.add(Ty::Prim(Primitive::U8));
                reg.add(Ty::Seq(vec![], a))
            }
        }
    } else {
        let p = *pick(UPRIMS);
        reg.add(Ty::Prim(p))
    };
    for _ in 0..draw(4) {
        t = match draw(4) {
            0 => reg.add(Ty::Tuple(vec![t])),
            1 => {
                let style = draw(2);
                let f = fields(reg, vec![t], style);
                let p = path();
                reg.add(Ty::Comp(p, f))
            }
            2 => {
                let f = fields(reg, vec![t], 1);
                let p = path();
                reg.add(Ty::Comp(p, f))
            }
            _ => reg.add(Ty::Compact(t)),
        };
    }
    reg.add(Ty::Compact(t))
}

pub fn push_compact(out: &mut Vec<u8>, v: u128) {
    if v < 64 {
        out.push((v as u8) << 2);
    } else if v < 1 << 14 {
        out.extend_from_slice(&(((v as u16) << 2) | 1).to_le_bytes());
    } else if v < 1 << 30 {
        out.extend_from_slice(&(((v as u32) << 2) | 2).to_le_bytes());
    } else {
        let n = (16 - v.leading_zeros() as usize / 8).max(4);
        out.push((((n - 4) as u8) << 2) | 3);
        out.extend_from_slice(&v.to_le_bytes()[..n]);
    }
}

/// An integer biased to boundaries, within lo..=hi.
pub fn gen_num(signed: bool, w: u32, h: Option<&Hint>) -> u128 {
    let mask = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    let raw = match draw(8) {
        0 => draw(200) as u128,
        1 => draw(3) as u128,
        2 => {
            let k = draw(w as u64 + 1) as u32;
            let p: u128 = if k >= 128 { 0 } else { 1 << k };
            p.wrapping_add(draw(3) as u128).wrapping_sub(1)
        }
        3 => {
            *pick(&[
                63u128,
                64,
                16383,
                16384,
                (1 << 30) - 1,
                1 << 30,
                u32::MAX as u128,
                1 << 32,
                999_999_999,
                1_000_000_000,
                1_000_000_001,
            ])
        }
        4 => mask - draw(3) as u128,
        5 => (mask >> 1).wrapping_add(draw(3) as u128).wrapping_sub(1),
        6 => draw64() as u128,
        _ => ((draw64() as u128) << 64) | draw64() as u128,
    } & mask;
    let Some(h) = h else { return raw };
    if signed {
        let v = ((raw << (128 - w)) as i128) >> (128 - w);
        let lo = h.lo.unwrap_or(i128::MIN);
        let hi = h.hi.map(|x| x.min(i128::MAX as u128) as i128).unwrap_or(i128::MAX);
        let v = v.clamp(lo.min(hi), hi);
        (v as u128) & mask
    } else {
        let lo = h.lo.unwrap_or(0).max(0) as u128;
        let hi = h.hi.unwrap_or(u128::MAX).min(mask);
        raw.clamp(lo.min(hi), hi)
    }
}

pub fn gen_str(ascii: bool) -> Vec<u8> {
    let n = match weighted(&[1200, 600, 400, 200, 100, 20, 1]) {
        6 => return vec![b'q'; 65535 + draw(3) as usize],
        0 => 3,
        1 => 0,
        2 => 1 + draw(10) as usize,
        3 => 62 + draw(4) as usize,
        4 => 300,
        _ => {
            // around where the length prefix grows to four bytes
            let n = 16382 + draw(4) as usize;
            return vec![b'z'; n];
        }
    };
    let mut s = String::new();
    while s.len() < n {
        let c = match draw(if ascii { 1 } else { 6 }) {
            0..=3 => (b'a' + draw(26) as u8) as char,
            4 => '\u{e9}',
            _ => '\u{1f600}',
        };
        s.push(c);
    }
    s.into_bytes()
}

/// Encode a random value of the type.
pub fn gen_val(reg: &Reg, tid: Tid, compact: bool, hints: &Hints, out: &mut Vec<u8>) {
    let stop = if reg.rec { Some((heights(reg, hints), out.len() + 1500, 3 + draw(22) as u32)) } else { None };
    val(reg, tid, compact, hints, out, 0, &stop)
}
/// `stop`: for types that contain themselves, the heights of types, and the size and depth from which
/// on values get as small as they can.
fn val(reg: &Reg, tid: Tid, compact: bool, hints: &Hints, out: &mut Vec<u8>, d: u32, stop: &Option<(Vec<u32>, usize, u32)>) {
    if d > 300 || sim::with(|s| { s.nodes += 1; s.nodes > 300_000 }) {
        std::panic::panic_any(sim::TooBig);
    }
    let small = stop.as_ref().filter(|s| d > s.2 || out.len() > s.1);
    let h = hints.get(&tid);
    match reg.get(tid) {
        None => {}
        Some(Ty::Compact(i)) => val(reg, *i, true, hints, out, d + 1, stop),
        Some(Ty::Prim(p)) => {
            if let Some((s, w)) = refm::prim_bits(*p) {
                let v = gen_num(s, w, h.filter(|h| h.slip == 0 || !chance(1, h.slip)));
                if compact && !s {
                    push_compact(out, v);
                } else {
                    out.extend_from_slice(&v.to_le_bytes()[..(w / 8) as usize]);
                }
                return;
            }
            match p {
                Primitive::Bool => out.push(draw(2) as u8),
                Primitive::Char => {
                    let c = match draw(8) {
                        7 => char::from_u32(draw(0x11_0000) as u32).unwrap_or('a'),
                        k => ['a', '\0', '\u{7f}', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'][k as usize],
                    };
                    out.extend_from_slice(&(c as u32).to_le_bytes());
                }
                Primitive::Str => {
                    let mut s = gen_str(h.map(|h| h.ascii).unwrap_or(false));
                    // Strings may hold bytes that are not utf-8; that is found out only when read.
                    if h.map(|h| !h.ascii).unwrap_or(true) && !s.is_empty() && chance(1, 12) {
                        let i = draw(s.len() as u64) as usize;
                        s[i] = 0xff;
                    }
                    push_compact(out, s.len() as u128);
                    out.extend_from_slice(&s);
                }
                _ => {
                    for _ in 0..4 {
                        out.extend_from_slice(&draw64().to_le_bytes());
                    }
                }
            }
        }
        Some(Ty::Bits(st, _)) => {
            let w = match st {
                BitsStoreFormat::U8 => 1,
                BitsStoreFormat::U16 => 2,
                BitsStoreFormat::U32 => 4,
                BitsStoreFormat::U64 => 8usize,
            };
            let n = match weighted(&[1000, 600, 400, 400, 200, 10, 1]) {
                6 => 65535 + draw(3) as usize,
                5 => 16383 + draw(3) as usize,
                0 => 1 + draw(12) as usize,
                1 => 0,
                2 => w * 8 * (1 + draw(2) as usize),
                3 => (w * 8).saturating_sub(1) + draw(3) as usize,
                _ => 60 + draw(80) as usize,
            };
            push_compact(out, n as u128);
            if n > 16000 {
                out.extend((0..n.div_ceil(w * 8) * w).map(|i| i as u8 ^ 0x5a));
                return;
            }
            for _ in 0..n.div_ceil(w * 8) * w {
                // bits beyond the length are deliberately arbitrary
                out.push(draw(256) as u8);
            }
        }
        Some(Ty::Seq(_, el)) => {
            let n = match h.and_then(|h| h.len) {
                _ if small.is_some() => 0,
                Some(n) => n,
                None => {
                    let n = gen_len(reg, *el);
                    if n as u64 * reg.weight[*el as usize] > 70_000 { n.min(2) } else { n }
                }
            };
            push_compact(out, n as u128);
            for _ in 0..n {
                val(reg, *el, false, hints, out, d + 1, stop);
            }
        }
        Some(Ty::Arr(el, n)) => {
            for _ in 0..*n {
                val(reg, *el, false, hints, out, d + 1, stop);
            }
        }
        Some(Ty::Tuple(v)) => {
            // (no value if compact and not a single field; anything may be there)
            let compact = compact && (v.len() == 1 || draw(2) == 0);
            for t in v {
                val(reg, *t, compact, hints, out, d + 1, stop);
            }
        }
        Some(Ty::Comp(_, f)) => {
            let compact = compact && (f.len() == 1 || draw(2) == 0);
            for f in f {
                val(reg, f.tid, compact, hints, out, d + 1, stop);
            }
        }
        Some(Ty::Var(_, v)) => {
            if v.is_empty() {
                out.push(draw(256) as u8);
                return;
            }
            let mut from: Vec<usize> = match h.and_then(|h| h.variants.as_ref()) {
                Some(l) if !l.is_empty() => l.clone(),
                _ => (0..v.len()).collect(),
            };
            if let Some((hs, ..)) = small {
                let height = |i: &usize| v[*i].fields.iter().map(|f| hs.get(f.tid as usize).copied().unwrap_or(0)).max().unwrap_or(0);
                let own = hs[tid as usize];
                from.retain(|i| height(i).saturating_add(1) <= own);
                if from.is_empty() {
                    // none of these ever ends; any other will do
                    from = (0..v.len()).collect();
                    let min = from.iter().map(height).min().unwrap_or(0);
                    from.retain(|i| height(i) == min);
                }
            }
            let i = *pick(&from);
            out.push(v[i].idx);
            for f in &v[i].fields {
                val(reg, f.tid, false, hints, out, d + 1, stop);
            }
        }
    }
}

pub fn gen_len(reg: &Reg, el: Tid) -> usize {
    let small = matches!(
        reg.get(el),
        Some(Ty::Prim(Primitive::U8 | Primitive::Bool | Primitive::U16)) | Some(Ty::Compact(_))
    );
    match weighted(&[14, 8, 8, 4, if small { 3 } else { 0 }, if small { 1 } else { 0 }]) {
        0 => 2,
        1 => 0,
        2 => 1,
        3 => 3 + draw(3) as usize,
        4 => 62 + draw(4) as usize,
        _ => *pick(&[300usize, 16383, 16384, 255, 256, 257, 65536, 16385, 1000 + draw(100) as usize, 16387 + draw(50) as usize]),
    }
}

/// One or more random messages in one buffer.
pub struct Stream {
    pub reg: Reg,
    pub tids: Vec<Tid>,
    pub bytes: Vec<u8>,
    /// Start of each message; last is the end of the final message.
    pub at: Vec<usize>,
}

pub fn stream(max_msgs: u64, max_depth: u32, trailing: bool) -> Stream {
    stream_cfg(max_msgs, TyCfg::d(max_depth), trailing)
}
pub fn stream_cfg(max_msgs: u64, cfg: TyCfg, trailing: bool) -> Stream {
    let mut reg = Reg::new();
    let n = 1 + draw(max_msgs);
    let mut tids = vec![];
    for _ in 0..n {
        let c = TyCfg { depth: draw(cfg.depth as u64 + 1) as u32, ..cfg };
        tids.push(gen_ty(&mut reg, c));
    }
    let hints = Hints::new();
    let mut bytes = vec![];
    let mut at = vec![0];
    for t in &tids {
        gen_val(&reg, *t, false, &hints, &mut bytes);
        if bytes.len() > 60_000 {
            // keep runs small; drop the rest
            at.push(bytes.len());
            break;
        }
        at.push(bytes.len());
    }
    tids.truncate(at.len() - 1);
    if trailing {
        for _ in 0..draw(40) {
            bytes.push(draw(256) as u8);
        }
    }
    sim::ev("stream", tids.len() as u64, bytes.len() as u64);
    sim::content(&bytes);
    Stream { reg, tids, bytes, at }
}

/// Offsets where a fault does most: length prefixes, variant indices, item starts.
pub fn hot_offsets(n: &Node) -> Vec<usize> {
    let mut v = vec![];
    n.walk(&mut |x| {
        match &x.k {
            K::List { seq: true, .. } | K::Str { .. } | K::Var { .. } | K::Bits { .. } => v.push(x.start),
            K::Prim(Primitive::Bool | Primitive::Char, _) => v.push(x.start),
            K::Prim(..) if x.compact => v.push(x.start),
            _ => {}
        };
        if let (K::Str { .. }, Some(e)) = (&x.k, x.end) {
            v.push(e - 1);
        }
        if v.len() < 2000 {
            v.push(x.start);
        }
    });
    v
}

/// Damage the bytes of lo..hi in place; the rest of the buffer moves when lengths change.
pub fn damage(bytes: &mut Vec<u8>, lo: usize, hi: usize, hot: &[usize]) {
    let times = 1 + weighted(&[12, 3, 1]);
    for _ in 0..times {
        let wide = sim::with(|s| s.wide);
        if (chance(1, 8) || wide && chance(3, 4)) && !hot.is_empty() {
            let at = *pick(hot);
            if let Some(Ok((v, used))) = bytes.get(at..).map(|b| refm::compact_int(b, 128)) {
                let v = match draw(8) {
                    // around 32 bits: the next ones a claim to hold more, or just as much once cut short
                    k if wide && k < 6 => match k {
                        0 => u32::MAX as u128 - draw(12) as u128,
                        1 => v.wrapping_add(u32::MAX as u128 - draw(3) as u128),
                        2 => v.wrapping_add(1 << 31),
                        3 => v.wrapping_add((draw(3) as u128 + 1) << 32),
                        4 => v.wrapping_add(1 << (32 + draw(32))),
                        _ => (1 << 32) + draw(6) as u128,
                    },
                    0 => v.wrapping_add(1),
                    1 => v.saturating_sub(1),
                    2 => v.wrapping_add(1 << 8),
                    3 => v.wrapping_add(1 << 16),
                    4 => v.wrapping_add(1 << 32),
                    5 => v.wrapping_mul(2),
                    6 => v.wrapping_add(1u128 << *pick(&[29u32, 30, 60, 61, 62, 63, 64])),
                    _ => {
                        // the same number in more bytes than it needs
                        let long = match draw(4) {
                            0 if v < 1 << 14 => (((v as u16) << 2) | 1).to_le_bytes().to_vec(),
                            1 if v < 1 << 30 => (((v as u32) << 2) | 2).to_le_bytes().to_vec(),
                            k => {
                                let n = if k == 2 { 4 } else { 5 + draw(4) as usize }.max(16 - v.leading_zeros() as usize / 8);
                                let mut b = vec![(((n - 4) as u8) << 2) | 3];
                                b.extend_from_slice(&v.to_le_bytes()[..n.min(16)]);
                                b
                            }
                        };
                        bytes.splice(at..at + used, long);
                        sim::fault("overlong_compact");
                        continue;
                    }
                };
                let mut b = vec![];
                push_compact(&mut b, v);
                bytes.splice(at..at + used, b);
                sim::fault("lying_length");
                continue;
            }
        }
        let hi = hi.min(bytes.len());
        if lo >= hi {
            return;
        }
        let at = if !hot.is_empty() && draw(3) != 2 {
            (*pick(hot)).clamp(lo, hi - 1)
        } else {
            lo + draw((hi - lo) as u64) as usize
        };
        let span = |m: usize| 1 + draw(m.min(hi - at).max(1) as u64) as usize;
        match weighted(&[10, 10, 6, 4, 4, 4, 4, 3, 2]) {
            8 => {
                // a number at the edge of what some type allows
                let v: u32 = *pick(&[0xd800, 0xdfff, 0xdbff, 0xdc00, 0x11_0000, 0x10_ffff, 0xffff, 0x10000, 0x8000_0000, u32::MAX, 0x7fff_ffff, 0xd7ff, 0xe000]);
                for (b, n) in bytes[at..hi].iter_mut().zip(v.to_le_bytes()) {
                    *b = n;
                }
                sim::fault("edge_word_written");
            }
            0 => {
                bytes[at] ^= 1 << draw(8);
                sim::fault("bit_flip");
            }
            1 => {
                bytes[at] = *pick(&[0xff, 0, 1, 2, 3, 4, 0x80, 0xfd, 0xfe, 0x7f, 0x0b, 0x13, 0x33, 0xc2, 0xed, 0xf0]);
                sim::fault("byte_overwritten");
            }
            2 => {
                bytes.truncate(at);
                sim::fault("truncated");
            }
            3 => {
                let n = span(16);
                for b in &mut bytes[at..at + n] {
                    *b = 0;
                }
                sim::fault("zeroed_range");
            }
            4 => {
                let n = span(8);
                for i in 0..n {
                    bytes[at + i] = draw(256) as u8;
                }
                sim::fault("overwritten_range");
            }
            5 => {
                let n = span(8);
                bytes.drain(at..at + n);
                sim::fault("dropped_range");
            }
            6 => {
                let n = span(8);
                let d = bytes[at..at + n].to_vec();
                let p = at + n;
                bytes.splice(p..p, d);
                sim::fault("duplicated_range");
            }
            _ => {
                // torn write: the tail is what was stored there before (older data)
                for b in bytes[at..hi].iter_mut() {
                    *b = b.wrapping_mul(31).wrapping_add(7);
                }
                sim::fault("torn_write");
            }
        }
    }
}
