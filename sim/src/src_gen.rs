//! Source types for a given target: usually compatible, sometimes not.

use crate::conv::{Flds, TD};
use crate::gen::{self, Hint, Hints, TyCfg};
use crate::sim::{chance, draw, pick, weighted};
use crate::ty::*;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};

pub struct SrcCfg {
    /// 1 in `misfit` nodes gets an unrelated type (0: never).
    pub misfit: u64,
    /// 1 in `off` number/length/variant choices may fall outside the target (0: never).
    pub off: u64,
    /// Depth left for wrapping.
    pub wrap: u32,
}

fn may_pass(td: &TD) -> bool {
    match td {
        TD::Wrap(t) => may_pass(t),
        TD::Unit | TD::Tup(_) | TD::One(_) | TD::Dur | TD::Range(_) | TD::Struct(_) | TD::Map(_) | TD::Rec(..) | TD::Picky | TD::First(_) => false,
        _ => true,
    }
}
fn names() -> Vec<String> {
    vec!["T".to_string()]
}

/// Returns a type id; now and then one that claims to be compact and can't be.
pub fn src(reg: &mut Reg, td: &TD, h: &mut Hints, c: &SrcCfg, depth: u32) -> Tid {
    let t = src_plain(reg, td, h, c, depth);
    if c.misfit > 0 && reg.open.is_empty() && chance(1, 40) {
        return reg.add(Ty::Compact(t));
    }
    t
}
/// A compact wrapper around a single field, if that can be (or, rarely, although it can't).
fn compact_ok(reg: &Reg, t: Tid, c: &SrcCfg, n: u64) -> bool {
    if compactable(reg, t, 0) {
        chance(1, n)
    } else {
        c.misfit > 0 && reg.open.is_empty() && chance(1, 12)
    }
}
fn src_plain(reg: &mut Reg, td: &TD, h: &mut Hints, c: &SrcCfg, depth: u32) -> Tid {
    if c.misfit > 0 && chance(1, c.misfit) {
        return gen::gen_ty(reg, TyCfg { zero_lists: false, ..TyCfg::d(1) });
    }
    // See-through wrappers.
    if depth < 6 && c.wrap > 0 && may_pass(td) && chance(1, 8) {
        let i = src(reg, td, h, c, depth + 1);
        if c.misfit > 0 && reg.open.is_empty() && chance(1, 6) {
            // a wrapper with something more in it, however little, is none
            let more = if draw(3) > 0 { reg.add(Ty::Tuple(vec![])) } else { gen::gen_ty(reg, TyCfg::d(0)) };
            let v = if draw(2) == 0 { vec![i, more] } else { vec![more, i] };
            let style = draw(3);
            let mut f = gen::fields(reg, v, style);
            for (k, f) in f.iter_mut().enumerate() {
                if f.name.is_some() && draw(2) == 0 {
                    f.name = Some(["_", "_phantom", "__marker"][draw(2) as usize + k].to_string());
                }
            }
            return if draw(3) == 2 { reg.add(Ty::Tuple(f.iter().map(|f| f.tid).collect())) } else { reg.add(Ty::Comp(names(), f)) };
        }
        return wrap1(reg, i);
    }
    match td {
        TD::Wrap(t) => src(reg, t, h, c, depth),
        TD::Rec(name, body) => {
            if let Some((_, t)) = reg.open.iter().find(|o| o.0 == *name) {
                return *t;
            }
            reg.rec = true;
            crate::sim::probe("recursive_target");
            let me = reg.add(Ty::Tuple(vec![]));
            reg.open.push((name, me));
            let i = src(reg, &body(), h, c, depth + 1);
            reg.open.pop();
            reg.tys[me as usize] = reg.tys[i as usize].clone();
            if let Some(x) = h.get(&i).cloned() {
                h.insert(me, x);
            }
            me
        }
        TD::Picky => {
            let t = reg.add(Ty::Prim(*pick(gen::UPRIMS)));
            let n = draw(13) as u128;
            if c.off == 0 || !chance(1, c.off) {
                // what is never refused
                h.insert(t, Hint { lo: Some(0), hi: Some(n), slip: if c.off > 0 { *pick(&[0, 8]) } else { 0 }, ..Hint::default() });
            }
            if draw(4) == 3 {
                return reg.add(Ty::Compact(t));
            }
            t
        }
        TD::First(t) => {
            let i = src(reg, t, h, c, depth + 1);
            if draw(2) == 0 {
                let n = if c.off > 0 && chance(1, c.off) { 0 } else { 1 + draw(3) as usize };
                return list(reg, i, Some(n), h, c);
            }
            let mut v = vec![i];
            for _ in 0..draw(4) {
                v.push(gen::gen_ty(reg, TyCfg { zero_lists: false, ..TyCfg::d(1) }));
            }
            match draw(3) {
                0 => reg.add(Ty::Tuple(v)),
                s => {
                    let f = gen::fields(reg, v, s - 1);
                    reg.add(Ty::Comp(names(), f))
                }
            }
        }
        TD::Int { signed, w, nz } => int_src(reg, *signed, *w, *nz, h, c),
        TD::Bool => reg.add(Ty::Prim(Primitive::Bool)),
        TD::Char => reg.add(Ty::Prim(Primitive::Char)),
        TD::Str => {
            let t = reg.add(Ty::Prim(Primitive::Str));
            h.insert(t, Hint { ascii: !(c.off > 0 && chance(1, 2)), ..Hint::default() });
            t
        }
        TD::Bits => {
            let s = *pick(&[BitsStoreFormat::U8, BitsStoreFormat::U16, BitsStoreFormat::U32, BitsStoreFormat::U64]);
            let o = *pick(&[BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0]);
            reg.add(Ty::Bits(s, o))
        }
        TD::Unit => {
            if draw(2) == 0 {
                reg.add(Ty::Tuple(vec![]))
            } else {
                reg.add(Ty::Comp(names(), vec![]))
            }
        }
        TD::Tup(ts) => {
            let v: Vec<&TD> = ts.iter().collect();
            tup(reg, &v, h, c, depth)
        }
        TD::Range(t) => tup(reg, &[t, t], h, c, depth),
        TD::Dur => {
            let (a, b) = (TD::Int { signed: false, w: 64, nz: false }, TD::Int { signed: false, w: 32, nz: false });
            tup(reg, &[&a, &b], h, c, depth)
        }
        TD::One(t) => match draw(3) {
            0 => src(reg, t, h, c, depth),
            1 => tup(reg, &[t], h, c, depth),
            _ => {
                // compact around a single-field wrapper, where the inside allows it
                let i = src(reg, t, h, &SrcCfg { misfit: 0, off: c.off, wrap: 0 }, depth + 1);
                if matches!(reg.get(i), Some(Ty::Prim(Primitive::U8 | Primitive::U16 | Primitive::U32 | Primitive::U64 | Primitive::U128))) {
                    let w = wrap1(reg, i);
                    reg.add(Ty::Compact(w))
                } else {
                    i
                }
            }
        },
        TD::List(t) | TD::Sorted(t, _) => {
            let el = src(reg, t, h, c, depth + 1);
            list(reg, el, None, h, c)
        }
        TD::Arr(t, n) => {
            let el = src(reg, t, h, c, depth + 1);
            list(reg, el, Some(*n), h, c)
        }
        TD::Map(t) => {
            let n = *pick(&[2usize, 1, 0, 3, 5]);
            let v: Vec<Tid> = (0..n).map(|_| src(reg, t, h, c, depth + 1)).collect();
            let style = [1, 1, 2][draw(3) as usize];
            let f = gen::fields(reg, v, style);
            reg.add(Ty::Comp(names(), f))
        }
        TD::Opt(t) => {
            let i = src(reg, t, h, c, depth + 1);
            var(reg, vec![("None", vec![]), ("Some", vec![Fld { name: None, tid: i }])], h, c)
        }
        TD::Res(a, b) => {
            let i = src(reg, a, h, c, depth + 1);
            let j = src(reg, b, h, c, depth + 1);
            var(reg, vec![("Ok", vec![Fld { name: None, tid: i }]), ("Err", vec![Fld { name: None, tid: j }])], h, c)
        }
        TD::Struct(f) => {
            let fl = flds(reg, f, h, c, depth);
            // Sometimes a compact single-field wrapper.
            if fl.len() == 1 && compact_ok(reg, fl[0].tid, c, 3) {
                let i = if draw(2) == 0 { reg.add(Ty::Comp(names(), fl)) } else { reg.add(Ty::Tuple(vec![fl[0].tid])) };
                return reg.add(Ty::Compact(i));
            }
            if draw(4) == 3 && !matches!(f, Flds::Named(_)) || (fl.iter().all(|f| f.name.is_none()) && draw(3) == 0) {
                return reg.add(Ty::Tuple(fl.iter().map(|f| f.tid).collect()));
            }
            reg.add(Ty::Comp(names(), fl))
        }
        TD::Enum(vs) => {
            let mut out = vec![];
            for (n, f) in vs {
                if vs.len() > 1 && chance(1, 6) {
                    continue;
                }
                let fl = flds(reg, f, h, c, depth);
                out.push((*n, fl));
            }
            var(reg, out, h, c)
        }
    }
}

pub fn compactable(reg: &Reg, t: Tid, d: u32) -> bool {
    if d > 8 {
        return false;
    }
    match reg.get(t) {
        Some(Ty::Prim(p)) => gen::UPRIMS.contains(p),
        Some(Ty::Compact(i)) => compactable(reg, *i, d + 1),
        Some(Ty::Tuple(v)) if v.len() == 1 => compactable(reg, v[0], d + 1),
        Some(Ty::Comp(_, f)) if f.len() == 1 => compactable(reg, f[0].tid, d + 1),
        _ => false,
    }
}

fn wrap1(reg: &mut Reg, i: Tid) -> Tid {
    match draw(3) {
        0 => reg.add(Ty::Tuple(vec![i])),
        s => {
            let f = gen::fields(reg, vec![i], s - 1);
            reg.add(Ty::Comp(names(), f))
        }
    }
}

fn int_src(reg: &mut Reg, signed: bool, w: u32, nz: bool, h: &mut Hints, c: &SrcCfg) -> Tid {
    let p = *pick(&[
        Primitive::U32,
        Primitive::U8,
        Primitive::U16,
        Primitive::U64,
        Primitive::U128,
        Primitive::I8,
        Primitive::I16,
        Primitive::I32,
        Primitive::I64,
        Primitive::I128,
    ]);
    let t = reg.add(Ty::Prim(p));
    if c.off == 0 || !chance(1, c.off) {
        let (lo, hi): (i128, u128) = if signed {
            (
                if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) },
                if w == 128 { i128::MAX as u128 } else { (1u128 << (w - 1)) - 1 },
            )
        } else {
            (0, if w == 128 { u128::MAX } else { (1u128 << w) - 1 })
        };
        let lo = if nz { lo.max(1) } else { lo };
        let slip = if c.off > 0 { *pick(&[0, 0, 8, 300]) } else { 0 };
        h.insert(t, Hint { lo: Some(lo), hi: Some(hi), slip, ..Hint::default() });
    }
    if gen::UPRIMS.contains(&p) && chance(1, 3) {
        let mut i = t;
        for _ in 0..weighted(&[6, 3, 1]) {
            i = wrap1(reg, i);
        }
        return reg.add(Ty::Compact(i));
    }
    t
}

fn tup(reg: &mut Reg, ts: &[&TD], h: &mut Hints, c: &SrcCfg, depth: u32) -> Tid {
    let mut v: Vec<Tid> = ts.iter().map(|t| src(reg, t, h, c, depth + 1)).collect();
    if c.misfit > 0 && chance(1, c.misfit * 2) {
        if draw(2) == 0 {
            v.pop();
        } else {
            let t = gen::gen_ty(reg, TyCfg::d(0));
            v.push(t);
        }
    }
    let compact = v.len() == 1 && compact_ok(reg, v[0], c, 3);
    let i = match draw(3) {
        0 => reg.add(Ty::Tuple(v)),
        s => {
            let f = gen::fields(reg, v, s - 1);
            reg.add(Ty::Comp(names(), f))
        }
    };
    if compact {
        reg.add(Ty::Compact(i))
    } else {
        i
    }
}

fn list(reg: &mut Reg, el: Tid, len: Option<usize>, h: &mut Hints, c: &SrcCfg) -> Tid {
    let want = len.unwrap_or_else(|| if chance(1, 60) { 250 + draw(60) as usize } else { *pick(&[2usize, 0, 1, 3, 7]) });
    let off = c.off > 0 && len.is_some() && chance(1, c.off);
    let n = if off { (want as i64 + *pick(&[1i64, -1, 2])).max(0) as usize } else { want };
    // (an array of a type in itself has no value)
    if draw(2) == 0 || !reg.open.is_empty() {
        let t = reg.add(Ty::Seq(names(), el));
        if len.is_some() || draw(2) == 0 {
            h.insert(t, Hint { len: Some(n), ..Hint::default() });
        }
        t
    } else {
        reg.add(Ty::Arr(el, n))
    }
}

fn flds(reg: &mut Reg, f: &Flds, h: &mut Hints, c: &SrcCfg, depth: u32) -> Vec<Fld> {
    match f {
        Flds::Unit => {
            if c.misfit > 0 && chance(1, 4) {
                let t = gen::gen_ty(reg, TyCfg::d(0));
                return vec![Fld { name: None, tid: t }];
            }
            vec![]
        }
        Flds::Unnamed(ts) => {
            let mut v: Vec<Tid> =
                ts.iter().filter(|t| !t.1).map(|t| src(reg, &t.0, h, c, depth + 1)).collect();
            if c.misfit > 0 && chance(1, c.misfit * 2) {
                v.pop();
            }
            let style = [0, 1, 2][draw(3) as usize];
            gen::fields(reg, v, style)
        }
        Flds::Named(ts) => {
            let mut v: Vec<Fld> = ts
                .iter()
                .filter(|t| !t.2)
                .map(|t| Fld { name: Some(t.0.to_string()), tid: src(reg, &t.1, h, c, depth + 1) })
                .collect();
            match draw(4) {
                0 => {}
                1 => {
                    // reordered, with extra fields between
                    for i in (1..v.len()).rev() {
                        let j = draw(i as u64 + 1) as usize;
                        v.swap(i, j);
                    }
                    let many = chance(1, 25);
                    for k in 0..if many { 10 + draw(60) } else { draw(3) } {
                        let t = gen::gen_ty(reg, TyCfg { wide: !many, ..TyCfg::d(if many { 0 } else { 1 }) });
                        let p = draw(v.len() as u64 + 1) as usize;
                        let mut name = format!("extra{k}");
                        if draw(3) == 2 && !v.is_empty() {
                            let like = alike(v[draw(v.len() as u64) as usize].name.as_deref().unwrap_or(""));
                            if v.iter().all(|f| f.name.as_deref() != Some(&like)) && ts.iter().all(|t| t.0 != like) {
                                crate::sim::probe("field_alike");
                                name = like;
                            }
                        }
                        v.insert(p, Fld { name: Some(name), tid: t });
                    }
                }
                2 => {
                    for f in v.iter_mut() {
                        f.name = None;
                    }
                }
                _ => {
                    // some unnamed: positional
                    let n = v.len().max(1) as u64;
                    let k = draw(n) as usize;
                    if let Some(f) = v.get_mut(k) {
                        f.name = None;
                    }
                }
            }
            if c.misfit > 0 && chance(1, c.misfit * 2) && !v.is_empty() {
                let k = draw(v.len() as u64) as usize;
                if draw(2) == 0 {
                    v.remove(k);
                } else if let Some(n) = &v[k].name {
                    let like = alike(n);
                    if v.iter().all(|f| f.name.as_deref() != Some(&like)) {
                        v[k].name = Some(like);
                    }
                }
            }
            v
        }
    }
}

/// A name that is nearly the given one.
fn alike(n: &str) -> String {
    let c = n.chars();
    match draw(7) {
        0 => c.map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        1 => format!("{n}_"),
        2 => format!("r#{n}"),
        3 => format!("{n}2"),
        4 => {
            let k = n.chars().count().max(1) - 1;
            c.take(k).collect()
        }
        5 => format!("_{n}"),
        _ => format!(" {n}"),
    }
}

fn var(reg: &mut Reg, vs: Vec<(&'static str, Vec<Fld>)>, h: &mut Hints, c: &SrcCfg) -> Tid {
    let mut vars: Vec<VarDef> = vec![];
    let base = *pick(&[0u8, 1, 100]);
    for (i, (n, f)) in vs.into_iter().enumerate() {
        vars.push(VarDef { name: n.to_string(), idx: base + i as u8, fields: f });
    }
    let fit: Vec<usize> = (0..vars.len()).collect();
    let t = gen::gen_ty(reg, TyCfg::d(0));
    vars.push(VarDef { name: "Other".into(), idx: base + 50, fields: vec![Fld { name: None, tid: t }] });
    if c.misfit > 0 && chance(1, 6) && vars.len() > 1 {
        // the right name with the wrong shape
        let k = draw(vars.len() as u64 - 1) as usize;
        let t = gen::gen_ty(reg, TyCfg::d(0));
        vars[k].fields.push(Fld { name: None, tid: t });
    }
    if vars.len() > 1 && chance(1, 5) {
        // a variant called nearly the same, of the same shape or not
        let k = draw(vars.len() as u64 - 1) as usize;
        let name = alike(&vars[k].name);
        if vars.iter().all(|v| v.name != name) {
            let fields = if draw(3) < 2 { vars[k].fields.clone() } else { vec![] };
            crate::sim::probe("variant_alike");
            vars.push(VarDef { name, idx: base + 60, fields });
        }
    }
    // Neither the order of variants nor their indexes mean anything.
    let n = vars.len();
    match draw(4) {
        0 | 1 => {}
        2 => {
            for (i, v) in vars.iter_mut().enumerate() {
                v.idx = base + (n - 1 - i) as u8;
            }
        }
        _ => {
            let (start, step) = (draw(256) as u8, *pick(&[1u8, 3, 255, 37]));
            for (i, v) in vars.iter_mut().enumerate() {
                v.idx = start.wrapping_add((i as u8).wrapping_mul(step));
            }
        }
    }
    let mut fit = fit;
    if chance(1, 4) && n > 1 {
        // listed in another order
        let by = 1 + draw(n as u64 - 1) as usize;
        vars.rotate_left(by);
        for f in &mut fit {
            *f = (*f + n - by) % n;
        }
    } else if chance(1, 30) {
        // behind many others
        let used: Vec<u8> = vars.iter().map(|v| v.idx).collect();
        let others: Vec<VarDef> = (0..=255u8)
            .filter(|i| !used.contains(i))
            .take(1 + draw(250) as usize)
            .map(|i| VarDef { name: format!("Filler{i}"), idx: i, fields: vec![] })
            .collect();
        for f in &mut fit {
            *f += others.len();
        }
        vars.splice(0..0, others);
    }
    let id = reg.add(Ty::Var(names(), vars));
    if (c.off == 0 || !chance(1, c.off)) && !fit.is_empty() {
        h.insert(id, Hint { variants: Some(fit), ..Hint::default() });
    }
    id
}
