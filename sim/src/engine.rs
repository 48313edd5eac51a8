//! Top-level decodes shared by the scenarios.

use crate::gen;
use crate::refm::{self, Node};
use crate::sim::{self, draw, fail, failed, Acts, Class};
use crate::ty::*;
use crate::typed;
use crate::visit::{self, check, slot, unwrap_crate_err, Chk, Kept, Out, SimErr, MSG, SV};
use crate::zoo::{Entry, ZOO};
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor, VisitorWithCrateError};
use std::collections::BTreeMap;

pub fn set_msg(b: &[u8]) -> Vec<u8> {
    MSG.with(|m| std::mem::replace(&mut *m.borrow_mut(), b.to_vec()))
}

/// Decode the value at the front of `input` with the simulated consumer and check everything.
/// `input` must end where the message buffer ends (offset `end`).
pub fn visit_top<'v, 's, 'r>(
    res: &'r SimResolver,
    input: &mut &'s [u8],
    end: usize,
    n: &'v Node,
    reg: &'v Reg,
) -> (Chk, Vec<Kept<'v, 's, 'r>>) {
    let start = end.wrapping_sub(input.len());
    if start != n.start {
        fail(Class::Harness, || format!("message at {start}, expected {}", n.start));
        return (Chk::Broken(SimErr::Rej(0)), vec![]);
    }
    let s = slot();
    let how = draw(7);
    let (r, kept, out) = match how {
        4 => {
            let r = decode_with_visitor(input, n.tid, res, IgnoreVisitor::<SimResolver>::new());
            sim::probe("top_ignored");
            (r.map(|_| 0).map_err(SimErr::Lib), vec![], Out::Ok(0))
        }
        6 => {
            let r = decode_with_visitor(input, n.tid, res, visit::Plain::new(n, &s));
            let o = s.borrow().clone();
            (r, vec![], o)
        }
        5 => {
            sim::probe("top_wrapped");
            match decode_with_visitor(input, n.tid, res, VisitorWithCrateError(SV::new(n, reg, end, &s))) {
                Ok(t) => (Ok(t.id), t.kept, s.borrow().clone()),
                Err(e) => {
                    let o = s.borrow().clone();
                    match unwrap_crate_err(&e) {
                        Some(e) => (Err(e), vec![], o),
                        None => {
                            fail(Class::Masked, || format!("wrapped visitor error became {e:?}"));
                            (Err(SimErr::Rej(0)), vec![], o)
                        }
                    }
                }
            }
        }
        _ => match decode_with_visitor(input, n.tid, res, SV::new(n, reg, end, &s)) {
            Ok(t) => (Ok(t.id), t.kept, s.borrow().clone()),
            Err(e) => (Err(e), vec![], s.borrow().clone()),
        },
    };
    let p = end.wrapping_sub(input.len());
    if p > end || p < n.start {
        fail(Class::Cursor, || format!("cursor {p} is outside the input"));
    }
    (check(n, &out, r, Some(p)), kept)
}

/// A small unrelated decode from inside a callback.
pub fn nested_decode() {
    let d = sim::with(|s| s.nested_depth);
    if d >= 2 {
        return;
    }
    sim::fault("reentrant_decode");
    let saved = sim::with(|s| {
        s.nested_depth += 1;
        (s.acts.clone(), s.rejected, s.transient_at.take(), s.transient_fired)
    });
    {
        let st = gen::stream(1, 2, true);
        let (n, bomb) = refm::interp(&st.reg, st.tids[0], &st.bytes, 0);
        if !bomb {
            let old = set_msg(&st.bytes);
            sim::with(|s| {
                s.rejected = false;
                s.transient_fired = false;
                s.acts.panic = 0;
                s.acts.takeover = 0;
            });
            let reg = st.reg.clone();
            let res = SimResolver::new(st.reg);
            if draw(2) == 0 {
                let mut input = &st.bytes[..];
                let _ = visit_top(&res, &mut input, st.bytes.len(), &n, &reg);
            } else {
                let e = sim::pick(ZOO);
                typed_top(&res, &st.bytes, 0, &n, &reg, e);
            }
            set_msg(&old);
        }
    }
    sim::with(|s| {
        s.nested_depth -= 1;
        s.acts = saved.0;
        s.rejected = saved.1;
        s.transient_at = saved.2;
        s.transient_fired = saved.3;
    });
}

/// Typed decode of the value at `at`. Returns Some(new position) on success.
pub fn typed_top(res: &SimResolver, bytes: &[u8], at: usize, n: &Node, reg: &Reg, e: &Entry) -> Option<usize> {
    let td = (e.td)();
    let w = typed::want(reg, &td, n);
    sim::ev("typed", n.start as u64, n.tid as u64);
    sim::content(e.name.as_bytes());
    sim::note(|| format!("decode into {} from {}", e.name, reg.show(n.tid)));
    let mut input = &bytes[at..];
    let got = (e.dec)(&mut input, n.tid, res);
    let ok = typed::judge(&w, &got, e.name);
    let p = bytes.len().wrapping_sub(input.len());
    if p > bytes.len() || p < at {
        fail(Class::Cursor, || format!("{}: cursor {p} is outside the input", e.name));
    }
    if let (true, Some(end)) = (ok, n.end) {
        if p != end {
            fail(Class::Cursor, || format!("{}: cursor is {p} after a value that ends at {end}", e.name));
        }
        return Some(p);
    }
    if let (Err(_), Some(end), false) = (&got, n.end, sim::with(|s| s.transient_fired)) {
        if p != end {
            fail(Class::CursorRejected, || format!("{}: cursor is {p} after a value that does not fit and ends at {end}", e.name));
        }
    }
    None
}

pub fn kept_later(kept: &[Kept<'_, '_, '_>], reg: &Reg, budget: usize) {
    if kept.is_empty() {
        return;
    }
    for _ in 0..budget {
        if failed() || sim::with(|s| s.steps > 1_000_000) {
            return;
        }
        let k = &kept[draw(kept.len() as u64) as usize];
        let _ = visit::decode_kept(k, reg, true);
    }
}

/// Draw a permissive mix of actions.
pub fn mix_acts(base: &Acts) -> Acts {
    let mut a = base.clone();
    for w in [
        &mut a.ignore,
        &mut a.iterate,
        &mut a.stop,
        &mut a.skip,
        &mut a.reject,
        &mut a.wrap,
        &mut a.dynamic,
        &mut a.as_tuple,
        &mut a.typed,
        &mut a.takeover,
        &mut a.keep,
        &mut a.nested,
        &mut a.panic,
    ] {
        if *w > 0 {
            *w = match draw(4) {
                0 => 0,
                1 => 1,
                2 => *w,
                _ => *w * 3,
            };
        }
    }
    a
}

pub type Down = BTreeMap<Tid, ResFault>;
