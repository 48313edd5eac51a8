//! The scenarios, one per property.

use crate::alloc;
use crate::conv::{Cv, Flds, TD};
use crate::engine::*;
use crate::gen::{self, Hints, TyCfg};
use crate::refm::{self, interp, interp_down, Bad, Node, K};
use crate::sim::{self, chance, draw, draw64, fail, failed, pick, probe, weighted, Acts, Class};
use crate::src_gen::{self, SrcCfg};
use crate::ty::*;
use crate::typed::{self, Want};
use crate::visit::{Chk, SimErr};
use crate::zoo::{Entry, ZOO};
use scale_decode::Field;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
}
pub static PROPS: &[Prop] = &[
    Prop { id: "C01", run: c01, quick: 375_000, thorough: 7_500_000 },
    Prop { id: "C02", run: c02, quick: 300_000, thorough: 6_000_000 },
    Prop { id: "C03", run: c03, quick: 625_000, thorough: 12_500_000 },
    Prop { id: "C04", run: c04, quick: 1_000_000, thorough: 20_000_000 },
    Prop { id: "C05", run: c05, quick: 625_000, thorough: 12_500_000 },
    Prop { id: "C06", run: c06, quick: 750_000, thorough: 15_000_000 },
    Prop { id: "C07", run: c07, quick: 500_000, thorough: 10_000_000 },
    Prop { id: "C08", run: c08, quick: 400_000, thorough: 8_000_000 },
    Prop { id: "C09", run: crate::conc::c09, quick: 75_000, thorough: 1_500_000 },
    Prop { id: "C10", run: c10, quick: 750_000, thorough: 15_000_000 },
    Prop { id: "C11", run: c11, quick: 1_000_000, thorough: 20_000_000 },
    Prop { id: "C12", run: c12, quick: 750_000, thorough: 15_000_000 },
    Prop { id: "C13", run: c13, quick: 625_000, thorough: 12_500_000 },
    Prop { id: "C14", run: c14, quick: 300_000, thorough: 6_000_000 },
    Prop { id: "C17", run: c17, quick: 800_000, thorough: 16_000_000 },
];

/// The other scenarios (threads aside), with lengths around and beyond 32 bits. Executed on a 32-bit machine.
fn c17() {
    if draw(2) == 0 {
        sim::with(|s| s.wide = true);
    }
    if usize::BITS == 32 {
        probe("thirty_two_bit");
    }
    let all: [fn(); 13] = [c03, c04, c01, c13, c12, c02, c14, c07, c11, c05, c06, c10, c08];
    let i = weighted(&[8, 8, 3, 4, 3, 2, 3, 2, 3, 1, 1, 1, 1]);
    sim::ev("scenario", i as u64, 0);
    all[i]()
}

/// One message of a stream: a type, and the typed target it was made for, if any.
#[derive(Clone)]
pub struct Msgs {
    pub reg: Reg,
    pub tids: Vec<Tid>,
    pub tgt: Vec<Option<&'static Entry>>,
    pub bytes: Vec<u8>,
}
pub struct MsgCfg {
    pub max: u64,
    pub depth: u32,
    /// n in 4 messages are made for a typed target
    pub typed: u64,
    pub src: SrcCfg,
    pub trailing: bool,
    pub ty: TyCfg,
}
pub fn base_cfg() -> MsgCfg {
    MsgCfg {
        max: 3,
        depth: 4,
        typed: 0,
        src: SrcCfg { misfit: 0, off: 0, wrap: 3 },
        trailing: true,
        ty: TyCfg::d(4),
    }
}

pub fn msgs(c: &MsgCfg) -> Msgs {
    let mut reg = Reg::new();
    let mut hints = Hints::new();
    let (mut tids, mut tgt) = (vec![], vec![]);
    for _ in 0..1 + draw(c.max) {
        if c.typed > 0 && draw(4) < c.typed {
            let e = pick(ZOO);
            let td = (e.td)();
            tids.push(src_gen::src(&mut reg, &td, &mut hints, &c.src, 0));
            tgt.push(Some(e));
        } else {
            let d = draw(c.depth as u64 + 1) as u32;
            tids.push(gen::gen_ty(&mut reg, TyCfg { depth: d, ..c.ty }));
            tgt.push(None);
        }
    }
    let mut bytes = vec![];
    let mut n = 0;
    for t in &tids {
        gen::gen_val(&reg, *t, false, &hints, &mut bytes);
        n += 1;
        if bytes.len() > 40_000 {
            break;
        }
    }
    tids.truncate(n);
    tgt.truncate(n);
    if c.trailing {
        for _ in 0..draw(40) {
            bytes.push(draw(256) as u8);
        }
    }
    sim::ev("stream", n as u64, bytes.len() as u64);
    sim::content(&bytes);
    sim::note(|| {
        format!(
            "stream of {n}: {} bytes {:02x?}{}",
            bytes.len(),
            &bytes[..bytes.len().min(48)],
            tids.iter().map(|t| format!(" | {}", reg.show(*t))).collect::<String>()
        )
    });
    Msgs { reg, tids, tgt, bytes }
}

pub fn resolver(reg: &Reg) -> SimResolver {
    let r = SimResolver::new(reg.clone());
    if chance(1, 6) {
        probe("real_portable_registry");
        r.use_portable()
    } else {
        r
    }
}
pub fn acts(f: impl FnOnce(&mut Acts)) {
    let mut a = Acts::plain();
    f(&mut a);
    let a = mix_acts(&a);
    sim::with(|s| s.acts = a);
}
pub fn bomb(b: bool) -> bool {
    if b {
        probe("skipped_zero_size_list");
    }
    b
}
/// Expected well formed: the generator and the reference must agree.
fn must(n: &Node) {
    if !n.ok() {
        fail(Class::Harness, || format!("generated bytes are not an encoding: {:?}", n.first_bad().map(|b| &b.k)));
    }
}
/// Is any reachable type a list of zero-size elements with a large claim? (known finding)
pub fn damage_all(m: &mut Msgs) {
    let (n, b) = interp(&m.reg, m.tids[0], &m.bytes, 0);
    let mut hot = if b { vec![] } else { gen::hot_offsets(&n) };
    if let (Some(e), Some(t)) = (n.end, m.tids.get(1)) {
        let (n2, b2) = interp(&m.reg, *t, &m.bytes, e);
        if !b2 {
            hot.extend(gen::hot_offsets(&n2));
        }
    }
    let hi = m.bytes.len();
    gen::damage(&mut m.bytes, 0, hi, &hot);
    sim::content(&m.bytes);
    sim::note(|| format!("damaged to {:02x?}", &m.bytes[..m.bytes.len().min(48)]));
}

// ---------------------------------------------------------------- C01
fn c01() {
    let m = msgs(&MsgCfg { max: 4, typed: draw(3), ..base_cfg() });
    acts(|a| {
        a.ignore = 4;
        a.iterate = 4;
        a.stop = 3;
        a.skip = 3;
        a.wrap = 3;
        a.dynamic = 3;
        a.as_tuple = 2;
        a.takeover = 4;
        a.keep = 1;
    });
    sim::with(|s| s.nontrivial = m.tids.len() > 1);
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut input = &m.bytes[..];
    let mut at = 0;
    for (t, tgt) in m.tids.iter().zip(&m.tgt) {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if bomb(b) {
            return;
        }
        must(&n);
        let mut kept = vec![];
        match tgt {
            Some(e) => {
                // A value that doesn't fit the target says nothing about where the next one is.
                let p = typed_top(&res, &m.bytes, at, &n, &m.reg, e);
                input = &m.bytes[p.or(n.end).unwrap()..];
            }
            None => kept = visit_top(&res, &mut input, m.bytes.len(), &n, &m.reg).1,
        }
        kept_later(&kept, &m.reg, 2);
        if failed() {
            return;
        }
        at = n.end.unwrap();
    }
}

// ---------------------------------------------------------------- C02
fn c02() {
    let m = msgs(&MsgCfg { max: 1, typed: draw(4), trailing: false, ..base_cfg() });
    acts(|a| {
        a.ignore = 4;
        a.iterate = 4;
        a.stop = 3;
        a.skip = 3;
        a.wrap = 2;
        a.dynamic = 2;
        a.as_tuple = 2;
    });
    let (full, b) = interp(&m.reg, m.tids[0], &m.bytes, 0);
    if bomb(b) {
        return;
    }
    must(&full);
    let res = resolver(&m.reg);
    let len = m.bytes.len();
    let mut cuts: Vec<usize> = if len <= 20 && chance(1, 2) {
        probe("every_cut_tried");
        (0..len).collect()
    } else {
        let hot = gen::hot_offsets(&full);
        (0..4)
            .map(|_| {
                if draw(2) == 0 {
                    (*pick(&hot) + draw(3) as usize).min(len.saturating_sub(1))
                } else {
                    draw(len.max(1) as u64) as usize
                }
            })
            .collect()
    };
    if len > 0 && draw(2) == 0 {
        cuts.push(len - 1);
    }
    cuts.retain(|c| *c < len);
    // chunks arrive in order; several attempts at the same fill level are allowed
    cuts.sort();
    cuts.push(len);
    for c in cuts {
        let part = m.bytes[..c].to_vec();
        let complete = c == len;
        if !complete {
            sim::fault("partial_delivery");
        }
        let (n, b) = interp(&m.reg, m.tids[0], &part, 0);
        if bomb(b) {
            return;
        }
        if n.ok() != complete {
            fail(Class::Harness, || format!("a strict prefix ({c} of {len}) of a value is a value"));
            return;
        }
        set_msg(&part);
        match &m.tgt[0] {
            Some(e) => {
                typed_top(&res, &part, 0, &n, &m.reg, e);
            }
            None => {
                let mut input = &part[..];
                visit_top(&res, &mut input, part.len(), &n, &m.reg);
            }
        }
        if failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- C03
fn c03() {
    let mut m = msgs(&MsgCfg {
        max: 2,
        ty: TyCfg { bad_compact: true, ..TyCfg::d(4) },
        ..base_cfg()
    });
    acts(|a| {
        a.ignore = 3;
        a.iterate = 5;
        a.stop = 2;
        a.skip = 2;
        a.wrap = 2;
        a.dynamic = 2;
        a.as_tuple = 2;
        a.keep = 1;
        a.takeover = 2;
    });
    if draw(8) != 7 {
        damage_all(&mut m);
    }
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut input = &m.bytes[..];
    let mut at = 0;
    for t in &m.tids {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if bomb(b) {
            return;
        }
        let (_, kept) = visit_top(&res, &mut input, m.bytes.len(), &n, &m.reg);
        kept_later(&kept, &m.reg, 2);
        if failed() {
            return;
        }
        match n.end {
            Some(e) => {
                probe("still_decodable");
                at = e
            }
            None => {
                probe(bad_name(&n));
                return;
            }
        }
    }
}
pub fn bad_name(n: &Node) -> &'static str {
    match n.first_bad().map(|b| &b.k) {
        Some(K::Bad(Bad::Eof)) => "bad_eof",
        Some(K::Bad(Bad::Compact)) => "bad_compact_int",
        Some(K::Bad(Bad::Bool(_))) => "bad_bool",
        Some(K::Bad(Bad::Char(_))) => "bad_char",
        Some(K::Bad(Bad::Variant(_))) => "bad_variant_index",
        Some(K::Bad(Bad::NotCompact)) => "bad_not_compact",
        Some(K::Bad(Bad::Down(..))) => "bad_type_down",
        Some(K::Bits { .. }) => "bad_bits",
        _ => "bad_other",
    }
}

// ---------------------------------------------------------------- C04, C11
fn typed_run(damage: bool, src: SrcCfg) {
    let mut m = msgs(&MsgCfg { max: 2, typed: 4, src, ..base_cfg() });
    if damage {
        damage_all(&mut m);
    }
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut at = 0;
    for (t, e) in m.tids.iter().zip(&m.tgt) {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if bomb(b) {
            return;
        }
        let e = e.unwrap();
        match typed::want(&m.reg, &(e.td)(), &n) {
            Want::Val(_) => probe("typed_fits"),
            Want::Misfit(_) => probe("typed_misfits"),
            Want::BadBytes => probe("typed_bad_bytes"),
        }
        typed_top(&res, &m.bytes, at, &n, &m.reg, e);
        if failed() {
            return;
        }
        match n.end {
            Some(e) => at = e,
            None => return,
        }
    }
}
fn c04() {
    let src = match draw(4) {
        0 => SrcCfg { misfit: 0, off: 0, wrap: 3 },
        1 => SrcCfg { misfit: 20, off: 10, wrap: 3 },
        2 => SrcCfg { misfit: 0, off: 6, wrap: 3 },
        _ => SrcCfg { misfit: 6, off: 6, wrap: 3 },
    };
    let d = draw(2) == 1;
    sim::with(|s| s.nontrivial = true);
    typed_run(d, src);
}
fn c11() {
    let src = match draw(3) {
        0 => SrcCfg { misfit: 0, off: 4, wrap: 3 },
        1 => SrcCfg { misfit: 12, off: 6, wrap: 3 },
        _ => SrcCfg { misfit: 0, off: 2, wrap: 1 },
    };
    sim::fault("value_out_of_target_range");
    let d = draw(6) == 5;
    typed_run(d, src);
    if chance(1, 8) && !failed() {
        typed::error_algebra();
    }
}

// ---------------------------------------------------------------- C05
pub fn pick_faults(reg: &Reg, n: &Node) -> Down {
    let mut down = Down::new();
    let mut tids = vec![];
    n.walk(&mut |x| {
        if tids.len() < 400 {
            tids.push(x.tid);
            tids.push(x.inner);
        }
    });
    for _ in 0..1 + draw(3) {
        let t = if draw(4) == 3 { draw(reg.tys.len() as u64) as Tid } else { *pick(&tids) };
        let f = match draw(3) {
            0 => ResFault::Err(format!("registry node {} unreachable", draw(1000))),
            1 => ResFault::NotFound,
            _ => ResFault::Unhandled,
        };
        down.insert(t, f);
    }
    down
}
fn c05() {
    let m = msgs(&MsgCfg { max: 1, typed: draw(4), ..base_cfg() });
    acts(|a| {
        a.ignore = 3;
        a.iterate = 4;
        a.stop = 2;
        a.skip = 2;
        a.wrap = 2;
        a.dynamic = 2;
        a.as_tuple = 2;
        a.typed = 2;
    });
    let tid = m.tids[0];
    let (healthy, b) = interp(&m.reg, tid, &m.bytes, 0);
    if bomb(b) {
        return;
    }
    must(&healthy);
    set_msg(&m.bytes);
    let decode = |res: &SimResolver, n: &Node| match &m.tgt[0] {
        Some(e) => {
            let td = (e.td)();
            let fits = matches!(typed::want(&m.reg, &td, &healthy), Want::Val(_));
            let mut input = &m.bytes[..];
            let got = (e.dec)(&mut input, tid, res);
            let w = typed::want(&m.reg, &td, n);
            if typed::judge(&w, &got, e.name) && Some(m.bytes.len() - input.len()) != n.end {
                fail(Class::Cursor, || format!("{}: cursor after a lookup fault", e.name));
            }
            // Nothing else is wrong, so the report has to name the outage.
            if let (Err(err), true, true) = (&got, fits, sim::with(|s| s.transient_fired)) {
                use scale_decode::{error::ErrorKind::VisitorDecodeError as V, visitor::DecodeError as D};
                let named = match sim::with(|s| s.transient_at) {
                    Some((_, 0)) => matches!(err.kind(), V(D::TypeResolvingError(m)) if m.contains(crate::ty::TRANSIENT_MSG)),
                    _ => matches!(err.kind(), V(D::TypeIdNotFound(_))),
                };
                if !named {
                    fail(Class::ResolverError, || format!("{}: one lookup failed, reported as '{err}'", e.name));
                }
                probe("transient_named");
            }
            if let (Err(err), true, Some(K::Bad(Bad::Down(t, f)))) =
                (&got, fits && !sim::with(|s| s.transient_fired), n.first_bad().map(|b| &b.k))
            {
                let text = format!("{err}");
                let down_ids: Vec<String> = match f {
                    ResFault::Err(msg) => vec![msg.clone()],
                    _ => vec![t.to_string()],
                };
                let any_down = res.down.iter().any(|(t, f)| match f {
                    ResFault::Err(m) => text.contains(m.as_str()),
                    _ => text.contains(&t.to_string()),
                });
                if !any_down {
                    fail(Class::ResolverError, || format!("{}: {f:?} of type {t} reported as '{text}', expected {down_ids:?}", e.name));
                }
            }
        }
        None => {
            let mut input = &m.bytes[..];
            visit_top(res, &mut input, m.bytes.len(), n, &m.reg);
        }
    };
    let rounds = 1 + draw(3);
    for _ in 0..rounds {
        if draw(2) == 0 {
            // an outage of some types
            let down = pick_faults(&m.reg, &healthy);
            let (n, b) = interp_down(&m.reg, tid, &m.bytes, 0, &down);
            if bomb(b) {
                return;
            }
            sim::note(|| format!("outage of {down:?}"));
            let mut res = resolver(&m.reg);
            res.down = down;
            if n.ok() {
                probe("outage_not_needed");
            }
            decode(&res, &n);
        } else {
            // one lookup fails
            let res = resolver(&m.reg);
            let k0 = sim::with(|s| s.resolves);
            // containers seen as something else are gone over again afterwards, which takes as many lookups again
            let d = 1 + draw((healthy.count().min(40) as u64 + 2) * *pick(&[1, 1, 2, 3]));
            let kind = draw(3) as u8;
            sim::with(|s| s.transient_at = Some((k0 + d, kind)));
            decode(&res, &healthy);
            if sim::with(|s| s.transient_fired) {
                probe("transient_hit");
            }
            sim::with(|s| {
                s.transient_at = None;
                s.transient_fired = false;
            });
        }
        sim::with(|s| s.rejected = false);
        if failed() {
            return;
        }
    }
    // healed
    probe("recovered_decode");
    let res = resolver(&m.reg);
    decode(&res, &healthy);
}

// ---------------------------------------------------------------- C06
fn c06() {
    if draw(3) == 2 {
        return crate::tracked::c06_typed();
    }
    let mut m = msgs(&MsgCfg { max: 1, ..base_cfg() });
    let dmg = draw(3);
    if dmg > 0 {
        damage_all(&mut m);
    }
    acts(|a| {
        a.reject = 6;
        a.ignore = 2;
        a.iterate = 4;
        a.stop = 2;
        a.skip = 1;
        a.wrap = 4;
        a.dynamic = 2;
        a.as_tuple = 1;
        a.takeover = 2;
    });
    let mut down = Down::new();
    if draw(5) == 4 {
        let (n, b) = interp(&m.reg, m.tids[0], &m.bytes, 0);
        if bomb(b) {
            return;
        }
        down = pick_faults(&m.reg, &n);
    }
    let (n, b) = interp_down(&m.reg, m.tids[0], &m.bytes, 0, &down);
    if bomb(b) {
        return;
    }
    let mut res = resolver(&m.reg);
    res.down = down;
    set_msg(&m.bytes);
    let mut input = &m.bytes[..];
    visit_top(&res, &mut input, m.bytes.len(), &n, &m.reg);
    if !n.ok() && sim::with(|s| s.rejected) {
        probe("rejected_and_damaged");
    }
}

// ---------------------------------------------------------------- C07
fn c07() {
    let m = msgs(&MsgCfg { max: 3, ..base_cfg() });
    acts(|a| {
        a.reject = 5;
        a.tolerate = true;
        a.ignore = 2;
        a.iterate = 3;
        a.stop = 1;
        a.skip = 2;
        a.wrap = 2;
        a.dynamic = 3;
        a.typed = 4;
        a.takeover = 2;
        a.as_tuple = 1;
        a.query = draw(2) as u32;
    });
    sim::with(|s| s.acts.tolerate = true);
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut input = &m.bytes[..];
    let mut at = 0;
    for t in &m.tids {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if bomb(b) {
            return;
        }
        must(&n);
        let (c, _) = visit_top(&res, &mut input, m.bytes.len(), &n, &m.reg);
        if failed() {
            return;
        }
        if let Chk::Rejected(_) = c {
            probe("message_rejected_then_next");
        }
        at = n.end.unwrap();
    }
}

// ---------------------------------------------------------------- C08
fn has_list(td: &TD) -> bool {
    match td {
        TD::List(_) | TD::Sorted(..) | TD::Arr(..) | TD::Str | TD::Bits | TD::Rec(..) => true,
        TD::Wrap(t) | TD::One(t) | TD::Opt(t) | TD::Map(t) | TD::Range(t) | TD::First(t) => has_list(t),
        TD::Tup(v) => v.iter().any(has_list),
        TD::Res(a, b) => has_list(a) || has_list(b),
        TD::Struct(Flds::Named(v)) => v.iter().any(|f| !f.2 && has_list(&f.1)),
        TD::Struct(Flds::Unnamed(v)) => v.iter().any(|f| !f.1 && has_list(&f.0)),
        TD::Enum(_) => true,
        _ => false,
    }
}
fn nested_chain(reg: &mut Reg, depth: u32) -> Tid {
    let mut t = reg.add(Ty::Prim(scale_type_resolver::Primitive::U8));
    let kinds = 1 + draw(5);
    for _ in 0..depth {
        t = match draw(kinds) {
            0 => reg.add(Ty::Tuple(vec![t])),
            1 => reg.add(Ty::Comp(vec!["N".into()], vec![Fld { name: Some("x".into()), tid: t }])),
            2 => reg.add(Ty::Arr(t, 1)),
            3 => reg.add(Ty::Seq(vec![], t)),
            _ => reg.add(Ty::Var(
                vec![],
                vec![VarDef { name: "V".into(), idx: 7, fields: vec![Fld { name: None, tid: t }] }],
            )),
        };
    }
    t
}
/// Claims to put in place of a length.
const CLAIMS: &[u128] = &[
    100,
    1 << 14,
    1 << 20,
    (1 << 30) - 1,
    1 << 30,
    u32::MAX as u128,
    (1 << 29) - 1,
    1 << 29,
    1 << 32,
    1 << 40,
    1 << 56,
    u64::MAX as u128,
    i64::MAX as u128,
    (1 << 61) - 1,
    1 << 61,
];
fn c08() {
    let mode = draw(4);
    let mut hints = Hints::new();
    let mut reg = Reg::new();
    let mut bytes = vec![];
    let mut target: Option<&Entry> = None;
    let tid;
    if mode == 3 {
        // deep nesting
        let d = 2 + draw(60) as u32;
        tid = nested_chain(&mut reg, d);
        for (i, t) in reg.tys.iter().enumerate() {
            if let Ty::Seq(..) = t {
                hints.insert(i as Tid, gen::Hint { len: Some(1), ..Default::default() });
            }
        }
        gen::gen_val(&reg, tid, false, &hints, &mut bytes);
        sim::fault("deep_nesting");
        if draw(3) == 0 && !bytes.is_empty() {
            let p = draw(bytes.len() as u64) as usize;
            bytes.truncate(p);
            sim::fault("truncated");
        }
        if draw(3) == 0 {
            target = Some(pick(ZOO));
        }
    } else {
        if mode > 0 {
            let e = loop {
                let e = pick(ZOO);
                if has_list(&(e.td)()) {
                    break e;
                }
                if sim::with(|s| s.tape.rec.len() > 5000) {
                    return;
                }
            };
            target = Some(e);
            let td = (e.td)();
            tid = src_gen::src(&mut reg, &td, &mut hints, &SrcCfg { misfit: 0, off: 0, wrap: 2 }, 0);
        } else {
            let d = 1 + draw(4) as u32;
            tid = gen::gen_ty(&mut reg, TyCfg { depth: d, ..TyCfg::d(4) });
        }
        gen::gen_val(&reg, tid, false, &hints, &mut bytes);
        let (n, b) = interp(&reg, tid, &bytes, 0);
        if bomb(b) {
            return;
        }
        // Places where a length is stored.
        let mut lens = vec![];
        n.walk(&mut |x| match &x.k {
            K::List { seq: true, first, .. } => lens.push((x.start, *first, 64)),
            K::Str { from, .. } => lens.push((x.start, *from, 32)),
            K::Bits { .. } => {
                if let Ok((_, u)) = refm::compact_int(&bytes[x.start..], 32) {
                    lens.push((x.start, x.start + u, 32));
                }
            }
            _ => {}
        });
        if !lens.is_empty() {
            let (a, e, _w) = *pick(&lens);
            let mut c = vec![];
            gen::push_compact(&mut c, *pick(CLAIMS));
            bytes.splice(a..e, c);
            sim::fault("lying_length");
        } else if draw(2) == 0 {
            // an array whose described length is far beyond the data
            let mut arrs: Vec<usize> = vec![];
            for (i, t) in reg.tys.iter().enumerate() {
                if matches!(t, Ty::Arr(..)) {
                    arrs.push(i);
                }
            }
            if !arrs.is_empty() {
                let i = *pick(&arrs);
                if let Ty::Arr(_, l) = &mut reg.tys[i] {
                    *l = *pick(&[1usize << 20, 1 << 31, (1u64 << 40).try_into().unwrap_or(usize::MAX - 1), usize::MAX]);
                }
                sim::fault("lying_array_length");
            }
        }
        if draw(3) == 0 {
            let k = draw(bytes.len() as u64 + 1) as usize;
            bytes.truncate(k);
            sim::fault("truncated");
        }
    }
    let (n, b) = interp(&reg, tid, &bytes, 0);
    if bomb(b) {
        return;
    }
    let nodes = n.count() as u64;
    let depth = n.depth() as u64;
    let res = SimResolver::new(reg.clone());
    set_msg(&bytes);
    sim::content(&bytes);
    sim::content(target.map(|e| e.name).unwrap_or("").as_bytes());
    sim::note(|| format!("{} <- {:02x?} ({} bytes)", reg.show(tid), &bytes[..bytes.len().min(40)], bytes.len()));
    sim::with(|s| s.nontrivial = true);
    // Work: lookups are the unit; every one is counted by the resolver.
    // (what follows a bad item may be passed over before the error is returned)
    let limit = 400 + 40 * (nodes + bytes.len() as u64) * (depth + 2);
    let before = sim::with(|s| {
        s.steps = 0;
        s.step_limit = limit * 4 + 1000;
        s.resolves
    });
    let size = target.map(|e| e.size).unwrap_or(16) as u64;
    let (what, used) = match target {
        Some(e) => {
            let td = (e.td)();
            let w = typed::want(&reg, &td, &n);
            let mut input = &bytes[..];
            alloc::start();
            let got = (e.dec_big)(&mut input, tid, &res);
            let used = alloc::stop();
            if got.is_ok() && !matches!(w, Want::Val(_)) {
                fail(Class::AcceptedBad, || format!("{}: a value that is not there was accepted", e.name));
            }
            if got.is_err() && matches!(w, Want::Val(_)) {
                fail(Class::TypedRefused, || format!("{}: refused", e.name));
            }
            (e.name, used)
        }
        None => {
            let mut input = &bytes[..];
            match draw(3) {
                0 => {
                    alloc::start();
                    let r = scale_decode::visitor::decode_with_visitor(
                        &mut input,
                        tid,
                        &res,
                        scale_decode::visitor::IgnoreVisitor::<SimResolver>::new(),
                    );
                    let used = alloc::stop();
                    if r.is_ok() != n.ok() {
                        fail(Class::AcceptedBad, || format!("ignoring gave {r:?}"));
                    }
                    ("IgnoreVisitor", used)
                }
                1 => {
                    alloc::start();
                    let r = scale_decode::visitor::decode_with_visitor(
                        &mut input,
                        tid,
                        &res,
                        crate::walk::Walk::<SimResolver>::new(false),
                    );
                    let used = alloc::stop();
                    if r.is_ok() != n.ok() {
                        fail(Class::AcceptedBad, || format!("walking gave {r:?}"));
                    }
                    ("walking visitor", used)
                }
                _ => {
                    alloc::start();
                    let r = scale_decode::visitor::decode_with_visitor(
                        &mut input,
                        tid,
                        &res,
                        crate::walk::Walk::<SimResolver>::new(true),
                    );
                    let used = alloc::stop();
                    if r.is_ok() != n.ok() {
                        fail(Class::AcceptedBad, || format!("iterating gave {r:?}"));
                    }
                    ("iterating visitor", used)
                }
            }
        }
    };
    let resolves = sim::with(|s| s.resolves) - before;
    if resolves > limit {
        fail(Class::Work, || format!("{what}: {resolves} lookups for {nodes} values nested {depth} deep in {} bytes", bytes.len()));
    }
    // Memory: proportional to the items actually present.
    let layout: u64 = reg.tys.iter().map(ty_size).sum();
    let bound = 4096 + 8 * (layout + size) + (bytes.len() as u64 + nodes) * 8 * (size.max(128));
    if used.peak as u64 > bound {
        fail(Class::Memory, || {
            format!("{what}: {} bytes allocated at once (largest request {}), bound {bound}, for {} bytes of input with {nodes} values", used.peak, used.biggest, bytes.len())
        });
    }
    if std::env::var("SIM_CALIBRATE").is_ok() {
        println!("CAL mem {:.3} work {:.3} {what}", used.peak as f64 / bound as f64, resolves as f64 / limit as f64);
    }
}
/// Size of a type description, for layouts that need memory of their own.
fn ty_size(t: &Ty) -> u64 {
    64 * match t {
        Ty::Tuple(v) => v.len() as u64,
        Ty::Comp(_, f) => f.len() as u64,
        Ty::Var(_, v) => v.iter().map(|v| v.fields.len() as u64).max().unwrap_or(0),
        _ => 1,
    }
}

// ---------------------------------------------------------------- C12
fn c12() {
    let mut m = msgs(&MsgCfg { max: 1, ..base_cfg() });
    if draw(3) == 2 {
        damage_all(&mut m);
    }
    acts(|a| {
        a.ignore = 4;
        a.iterate = 4;
        a.stop = 3;
        a.skip = 3;
        a.reject = 3;
        a.wrap = 1;
        a.dynamic = 3;
        a.as_tuple = 5;
        a.typed = 1;
        a.keep = 2;
        a.takeover = 1;
    });
    sim::with(|s| {
        s.acts.query = 1;
        s.acts.overrun = true;
        s.nontrivial = true;
    });
    let tol = draw(2) == 1;
    sim::with(|s| s.acts.tolerate = tol);
    let (n, b) = interp(&m.reg, m.tids[0], &m.bytes, 0);
    if bomb(b) {
        return;
    }
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut input = &m.bytes[..];
    let (_, kept) = visit_top(&res, &mut input, m.bytes.len(), &n, &m.reg);
    kept_later(&kept, &m.reg, 1);
}

// ---------------------------------------------------------------- C13
fn c13() {
    let mut reg = Reg::new();
    let mut hints = Hints::new();
    let pool: Vec<&Entry> = ZOO.iter().filter(|e| e.fields.is_some()).collect();
    let src = match draw(3) {
        0 => SrcCfg { misfit: 0, off: 0, wrap: 2 },
        1 => SrcCfg { misfit: 10, off: 8, wrap: 2 },
        _ => SrcCfg { misfit: 0, off: 6, wrap: 2 },
    };
    let mut lists: Vec<(&Entry, Vec<Fld>, Tid)> = vec![];
    for _ in 0..1 + draw(3) {
        let e = *pick(&pool);
        let td = (e.td)();
        let t = src_gen::src(&mut reg, &td, &mut hints, &src, 0);
        let f = match reg.get(t) {
            Some(Ty::Comp(_, f)) => f.clone(),
            Some(Ty::Tuple(v)) => v.iter().map(|t| Fld { name: None, tid: *t }).collect(),
            _ => vec![Fld { name: None, tid: t }],
        };
        let whole = reg.add(Ty::Comp(vec!["W".into()], f.clone()));
        lists.push((e, f, whole));
    }
    let mut bytes = vec![];
    for (_, _, w) in &lists {
        gen::gen_val(&reg, *w, false, &hints, &mut bytes);
    }
    for _ in 0..draw(20) {
        bytes.push(draw(256) as u8);
    }
    sim::with(|s| s.nontrivial = true);
    sim::note(|| {
        format!(
            "field lists {:?}; {} bytes {:02x?}",
            lists.iter().map(|l| format!("{} <- {}", l.0.name, reg.show(l.2))).collect::<Vec<_>>(),
            bytes.len(),
            &bytes[..bytes.len().min(48)]
        )
    });
    let mut down = Down::new();
    let mut once = false;
    match draw(5) {
        0 | 1 => {}
        4 => once = true,
        2 => {
            let (n, b) = interp(&reg, lists[0].2, &bytes, 0);
            let hot = if b { vec![] } else { gen::hot_offsets(&n) };
            let hi = bytes.len();
            gen::damage(&mut bytes, 0, hi, &hot);
        }
        _ => {
            if draw(2) == 0 {
                let k = draw(bytes.len() as u64 + 1) as usize;
                bytes.truncate(k);
                sim::fault("truncated");
            } else {
                let (n, b) = interp(&reg, lists[0].2, &bytes, 0);
                if bomb(b) {
                    return;
                }
                down = pick_faults(&reg, &n);
            }
        }
    }
    let mut res = resolver(&reg);
    let mut at = 0;
    for (e, f, whole) in &lists {
        let mut it = refm::Interp { reg: &reg, bytes: &bytes, down: &down, budget: 200_000, bomb: false };
        let n = it.field_list(f, at);
        if bomb(it.bomb) {
            return;
        }
        res.down = down.clone();
        let td = (e.td)();
        let w = fields_want(&reg, &td, f, &n);
        let mut input = &bytes[at..];
        let mut iter = f.iter().map(|f| Field { name: f.name.as_deref(), id: f.tid });
        let what = format!("fields into {}", e.name);
        if once && draw(2) == 0 {
            // One lookup fails: an error, or the value; and all is well when it is tried again.
            let kind = draw(3) as u8;
            let d = 1 + draw((n.count().min(40) as u64 + 2) * *pick(&[1, 2, 3]));
            sim::with(|s| s.transient_at = Some((s.resolves + d, kind)));
            let mut input = input;
            let got = (e.fields.unwrap())(&mut input, &mut iter.clone(), &res);
            if let (Ok(_), FW::Plain(w)) = (&got, &w) {
                typed::judge(w, &got, &what);
                if Some(bytes.len().wrapping_sub(input.len())) != n.end {
                    fail(Class::Cursor, || format!("{what}: {} bytes left after a failed lookup, the fields end at {:?}", input.len(), n.end));
                }
            }
            sim::with(|s| {
                if s.transient_fired {
                    *s.probes.entry("retried_after_outage").or_insert(0) += 1;
                }
                s.transient_at = None;
                s.transient_fired = false;
            });
        }
        let got = (e.fields.unwrap())(&mut input, &mut iter, &res);
        match &w {
            FW::Plain(w) => {
                typed::judge(w, &got, &what);
            }
            // a misfit that is found before the damage is reached takes priority
            FW::First(m) => match &got {
                Ok(_) => {
                    typed::judge(&Want::BadBytes, &got, &what);
                }
                Err(err) => {
                    probe("misfit_before_damage");
                    typed::judge_error(m, err, &what);
                }
            },
        }
        let p = bytes.len().wrapping_sub(input.len());
        if p > bytes.len() || p < at {
            fail(Class::Cursor, || format!("{what}: cursor {p} outside the input"));
        }
        // Like a composite, also fields that don't fit the target are left behind.
        if n.end.is_some() && Some(p) != n.end {
            fail(Class::Cursor, || format!("{what}: cursor {p}, the fields end at {:?}", n.end));
        }
        // The whole value, as a composite, must fare the same.
        if draw(3) == 0 {
            let mut d2 = down.clone();
            d2.remove(whole);
            res.down = d2;
            if !down.contains_key(whole) {
                let (cn, _) = interp_down(&reg, *whole, &bytes, at, &down);
                let mut input2 = &bytes[at..];
                let got2 = (e.dec)(&mut input2, *whole, &res);
                typed::judge(&typed::want(&reg, &td, &cn), &got2, &format!("composite into {}", e.name));
                if got.is_ok() != got2.is_ok() || (got.is_ok() && got.as_ref().ok() != got2.as_ref().ok()) {
                    let s = |r: &Result<crate::conv::TV, _>| match r {
                        Ok(v) => typed::short(v),
                        Err(e) => format!("{e}"),
                    };
                    fail(Class::Fields, || format!("{what}: {} but as a composite {}", s(&got), s(&got2)));
                }
            }
        }
        if failed() {
            return;
        }
        match n.end {
            Some(e) => at = e,
            None => return,
        }
    }
}
enum FW {
    Plain(Want),
    First(Vec<crate::conv::Misfit>),
}
fn fields_want(reg: &Reg, td: &TD, f: &[Fld], n: &Node) -> FW {
    if let TD::Rec(_, body) = td {
        return fields_want(reg, &body(), f, n);
    }
    let cv = Cv { reg };
    let items = n.items();
    if n.ok() {
        let r = match td {
            TD::Tup(ts) => cv.tup_items(&ts.iter().collect::<Vec<_>>(), items),
            TD::One(t) => cv.tup_items(&[t], items),
            TD::Struct(fl) => cv.flds(fl, Some(f), items, false).map(|v| crate::conv::TV::V("", v)),
            _ => unreachable!(),
        };
        return FW::Plain(match r {
            Ok(v) => Want::Val(v),
            Err(m) => Want::Misfit(m),
        });
    }
    // How far do the fields fit before the damage is reached?
    let (ts, by_idx): (Vec<(&TD, crate::conv::Seg)>, bool) = match td {
        TD::Tup(ts) => (ts.iter().enumerate().map(|(i, t)| (t, crate::conv::Seg::I(i))).collect(), true),
        TD::One(t) => (vec![(&**t, crate::conv::Seg::I(0))], true),
        TD::Struct(Flds::Unnamed(v)) => (
            v.iter().enumerate().filter(|(_, t)| !t.1).map(|(i, t)| (&t.0, crate::conv::Seg::I(i))).collect(),
            true,
        ),
        TD::Struct(Flds::Unit) => (vec![], true),
        TD::Struct(Flds::Named(v)) => (
            v.iter().filter(|t| !t.2).map(|t| (&t.1, crate::conv::Seg::F(t.0.into()))).collect(),
            f.iter().any(|f| f.name.is_none()),
        ),
        _ => unreachable!(),
    };
    if !by_idx {
        return FW::Plain(Want::BadBytes);
    }
    if ts.len() != f.len() {
        return FW::First(vec![crate::conv::Misfit {
            path: vec![],
            kind: crate::conv::MK::Len { actual: f.len(), expected: ts.len() },
        }]);
    }
    for ((t, seg), i) in ts.iter().zip(items) {
        if !i.ok() {
            break;
        }
        if let Err(mut m) = cv.conv(t, i) {
            for x in &mut m {
                x.path.insert(0, seg.clone());
            }
            return FW::First(m);
        }
    }
    FW::Plain(Want::BadBytes)
}

// ---------------------------------------------------------------- C14
fn c14() {
    let m = msgs(&MsgCfg { max: 3, ..base_cfg() });
    acts(|a| {
        a.decode = 8;
        a.ignore = 1;
        a.iterate = 6;
        a.keep = 10;
        a.typed = 2;
        a.reject = 2;
        a.as_tuple = 4;
        a.stop = 1;
        a.nested = 1;
    });
    let tol = draw(2) == 1;
    sim::with(|s| {
        s.acts.tolerate = tol;
        s.acts.keep = s.acts.keep.max(4);
    });
    let res = resolver(&m.reg);
    set_msg(&m.bytes);
    let mut nodes = vec![];
    let mut at = 0;
    for t in &m.tids {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if bomb(b) {
            return;
        }
        must(&n);
        let Some(e) = n.end else { return };
        at = e;
        nodes.push(n);
    }
    let mut input = &m.bytes[..];
    let mut all = vec![];
    for n in &nodes {
        let (_, kept) = visit_top(&res, &mut input, m.bytes.len(), n, &m.reg);
        all.extend(kept);
        if failed() {
            return;
        }
        // decode some now, in any order, again and again
        let k = draw(4) as usize;
        kept_later(&all, &m.reg, k);
        if failed() {
            return;
        }
        // a message is only followed by the next if it was consumed to its end
        let p = m.bytes.len() - input.len();
        if Some(p) != n.end {
            return;
        }
    }
    kept_later(&all, &m.reg, 4);
    let _ = draw64();
    let _ = SimErr::Rej(0);
}

fn c10() {
    if draw(5) == 4 {
        retained()
    } else {
        crate::tracked::c10()
    }
}
/// Any decode at all: what it returned is dropped, and nothing may be left of it.
fn retained() {
    let mut m = msgs(&MsgCfg { max: 2, typed: 3, ..base_cfg() });
    if draw(2) == 1 {
        damage_all(&mut m);
    }
    let (n, b) = interp(&m.reg, m.tids[0], &m.bytes, 0);
    if bomb(b) {
        return;
    }
    let down = if draw(4) == 3 { pick_faults(&m.reg, &n) } else { Down::new() };
    let mut res = resolver(&m.reg);
    res.down = down.clone();
    set_msg(&m.bytes);
    sim::with(|s| s.nontrivial = true);
    let mut at = 0;
    for (tid, tgt) in m.tids.iter().zip(&m.tgt) {
        let (n, b) = interp_down(&m.reg, *tid, &m.bytes, at, &down);
        if bomb(b) {
            return;
        }
        for _ in 0..1 + draw(3) {
            let mut input = &m.bytes[at..];
            let kind = draw(3);
            if draw(6) == 5 {
                let k = draw(n.count().min(40) as u64 + 1);
                sim::with(|s| s.transient_at = Some((s.resolves + 1 + k, 0)));
            }
            alloc::start();
            let (what, ok) = match tgt {
                Some(e) => (e.name, (e.dec)(&mut input, *tid, &res).is_ok()),
                None if kind == 0 => {
                    let v = scale_decode::visitor::VisitorWithCrateError(crate::walk::Walk::<SimResolver>::new(false));
                    ("walking visitor", scale_decode::visitor::decode_with_visitor(&mut input, *tid, &res, v).is_ok())
                }
                None => {
                    let v = crate::walk::Walk::<SimResolver>::new(kind == 1);
                    ("iterating visitor", scale_decode::visitor::decode_with_visitor(&mut input, *tid, &res, v).is_ok())
                }
            };
            let u = alloc::stop();
            sim::with(|s| {
                s.transient_at = None;
                s.transient_fired = false;
            });
            if u.net != 0 {
                fail(Class::Retained, || format!("{what}: {} bytes still allocated after the outcome was dropped", u.net));
            }
            probe(if ok { "result_dropped" } else { "error_dropped" });
        }
        match n.end {
            Some(e) => at = e,
            None => return,
        }
    }
}
