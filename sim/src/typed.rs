//! Typed decodes judged against the conversion model.

use crate::conv::{self, Cv, Misfit, TD, TV};
use crate::refm::Node;
use crate::sim::{self, draw, fail, Class};
use crate::ty::*;
use crate::visit::{AnyH, Chk, Cont, SimErr, View, R};
use crate::zoo::Zoo;
use scale_decode::error::Error;
use std::collections::BTreeMap;

pub fn short(t: &impl std::fmt::Debug) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push_str("..");
    }
    s
}

/// What the reference says should happen.
pub enum Want {
    Val(TV),
    Misfit(Vec<Misfit>),
    /// The bytes are not a valid encoding.
    BadBytes,
}
pub fn want(reg: &Reg, td: &TD, n: &Node) -> Want {
    if !n.ok() {
        return Want::BadBytes;
    }
    match (Cv { reg }).conv(td, n) {
        Ok(v) => Want::Val(v),
        Err(m) => Want::Misfit(m),
    }
}

/// Compare. Returns whether the value decoded (as it should).
pub fn judge(w: &Want, got: &Result<TV, Error>, what: &str) -> bool {
    let trans = sim::with(|s| s.transient_fired);
    match (w, got) {
        (Want::Val(v), Ok(g)) => {
            if v != g {
                fail(Class::Typed, || format!("{what}: got {}, the bytes mean {}", short(g), short(v)));
            }
            true
        }
        (Want::Val(v), Err(e)) => {
            if !trans {
                fail(Class::TypedRefused, || format!("{what}: refused with {e}, the bytes mean {}", short(v)));
            }
            false
        }
        (Want::Misfit(m), Ok(g)) => {
            fail(Class::TypedAccepted, || format!("{what}: accepted as {}, but {:?} at {:?}", short(g), m[0].kind, conv::show_path(&m[0].path)));
            false
        }
        (Want::Misfit(m), Err(e)) => {
            if !trans {
                judge_error(m, e, what);
            }
            false
        }
        (Want::BadBytes, Ok(g)) => {
            fail(Class::AcceptedBad, || format!("{what}: accepted as {}, but the bytes are no valid encoding", short(g)));
            false
        }
        (Want::BadBytes, Err(_)) => false,
    }
}

/// The error has to describe one of the misfits.
pub fn judge_error(m: &[Misfit], e: &Error, what: &str) {
    sim::probe("misfit_error_checked");
    let locs: Vec<_> = e.context().path().locations().cloned().collect();
    let hit = m.iter().any(|x| conv::kind_matches(&x.kind, e.kind()) && conv::path_matches(&x.path, &locs));
    if !hit {
        fail(Class::ErrorInfo, || {
            let l: Vec<String> =
                m.iter().take(4).map(|x| format!("{:?} at '{}'", x.kind, conv::show_path(&x.path))).collect();
            format!("{what}: the error says '{e}' ({:?}), what is wrong is {}", e.kind(), l.join(" or "))
        });
        return;
    }
    if locs.len() > 1 {
        sim::probe("nested_error_location");
    }
    // What is displayed has to say the same.
    let path = e.context().path().to_string();
    let want = conv::display_path(&locs);
    let owned = e.context().path().into_owned().to_string();
    let text = e.to_string();
    if path != want || owned != path || !text.contains(&path) || !text.contains(&e.kind().to_string()) {
        fail(Class::ErrorInfo, || format!("{what}: error text '{text}', path '{path}' does not show '{want}'"));
    }
}

/// Errors as users make them: locations are added from the inside out.
pub fn error_algebra() {
    use scale_decode::error::{ErrorKind, Location as L};
    let text: String = if sim::chance(1, 3) { "out of order, ключ ".repeat(sim::draw(80) as usize + 1) } else { "out of order".into() };
    let mut e = match draw(4) {
        0 => Error::custom_str("out of order"),
        1 => Error::custom_string(text.clone()),
        2 => Error::custom(Error::custom_string(text.clone())),
        _ => Error::new(ErrorKind::CannotFindField { name: text.clone() }),
    };
    let kind = format!("{}", e.kind());
    if !kind.contains(&text) && !kind.contains("out of order") || (kind.contains(", ") && !kind.contains(&text)) {
        fail(Class::ErrorInfo, || format!("an error made with the text '{text}' says '{kind}'"));
    }
    let mut want: Vec<L> = vec![];
    let mut shown: Vec<String> = vec![];
    let n = if sim::chance(1, 6) { draw(90) } else { draw(6) };
    for _ in 0..n {
        let long = "some_name ".repeat(1 + draw(9) as usize);
        let name: &str = *sim::pick(&["a", "b.c", "", "[0]", "ключ", &long]);
        let i = *sim::pick(&[0usize, 1, 255, 256, usize::MAX]);
        let l;
        (e, l) = match draw(7) {
            0 => (e.at_idx(i), L::idx(i)),
            1 if name == "a" => (e.at_field("a"), L::field("a")),
            2 if name == "b.c" => (e.at_variant("b.c"), L::variant("b.c")),
            1 => (e.at_field(name.to_string()), L::field(name.to_string())),
            2 => (e.at_variant(name.to_string()), L::variant(name.to_string())),
            3 => (e.at(L::idx(i)), L::idx(i)),
            4 => (e.at(L::field(name.to_string())), L::field(name.to_string())),
            5 => (e.at_field(name.to_string()), L::field(name.to_string())),
            _ => (e.at(L::variant(name.to_string())), L::variant(name.to_string())),
        };
        shown.insert(0, if l == L::idx(i) { format!("[{i}]") } else if l == L::field(name.to_string()) { name.to_string() } else { format!("({name})") });
        want.insert(0, l);
    }
    let locs: Vec<_> = e.context().path().locations().cloned().collect();
    let path = e.context().path().to_string();
    let owned = e.context().path().into_owned().to_string();
    if locs != want || path != shown.join(".") || path != conv::display_path(&want) || owned != path || e.kind().to_string() != kind || !kind.contains("out of order") {
        fail(Class::ErrorInfo, || format!("an error said to be at {want:?} is at {locs:?} ('{path}', '{owned}'): {e}"));
    }
    if !e.to_string().contains(&path) || !e.to_string().contains(&kind) {
        fail(Class::ErrorInfo, || format!("error text '{e}' lacks '{path}' or '{kind}'"));
    }
    // each way of adding a location shows it its own way
    let all = [L::idx(7), L::field("7"), L::variant("7")].map(|l| {
        let mut c = scale_decode::error::Context::new();
        c.push(l);
        c.path().to_string()
    });
    if all != ["[7]", "7", "(7)"] {
        fail(Class::ErrorInfo, || format!("locations read {all:?}"));
    }
}

macro_rules! small_types {
    ($pick:expr, $T:ident => $body:expr) => {
        match $pick {
            0 => { type $T = u64; $body }
            1 => { type $T = String; $body }
            2 => { type $T = Vec<u8>; $body }
            3 => { type $T = (u32,); $body }
            4 => { type $T = Box<u128>; $body }
            5 => { type $T = Option<u32>; $body }
            6 => { type $T = BTreeMap<String, u64>; $body }
            7 => { type $T = crate::zoo::S7; $body }
            8 => { type $T = bool; $body }
            9 => { type $T = (u8, u8); $body }
            _ => { type $T = [u16; 2]; $body }
        }
    };
}

/// What to do with the outcome of a typed decode of one item.
fn outcome(n: &Node, w: &Want, r: Result<TV, Error>, what: &str) -> Chk {
    let ok = r.is_ok();
    judge(w, &r, what);
    if ok {
        return Chk::Good;
    }
    let e = SimErr::Rej(sim::fresh_id());
    if sim::with(|s| s.transient_fired) || !n.ok() {
        return Chk::Broken(e);
    }
    sim::fault("typed_misfit");
    sim::with(|s| s.rejected = true);
    Chk::Rejected(e)
}

/// Read one item of a container into a typed target.
pub fn typed_item<'v, 's, 'r, C: Cont<'s, 'r>>(c: &mut C, n: &'v Node, v: &View<'v>) -> Chk {
    let k = draw(11);
    small_types!(k, T => {
        let td = <T as Zoo>::td();
        let w = want(v.reg, &td, n);
        let Some(r) = c.item(<T as scale_decode::IntoVisitor>::into_visitor::<R>()) else {
            fail(crate::visit::shown_class(), || "an item is missing".into());
            return Chk::Broken(SimErr::Rej(sim::fresh_id()));
        };
        let r = r.map(|x: T| x.tv());
        let ok = r.is_ok();
        let chk = outcome(n, &w, r, "item into a typed target");
        if let (Some(end), true) = (n.end, ok || !C::REC) {
            let p = v.slice_end.wrapping_sub(c.undec().len());
            if p != end && !sim::with(|s| s.transient_fired) {
                let cl = if ok { Class::Cursor } else { Class::CursorRejected };
                fail(cl, || format!("cursor is {p} after a typed item that ends at {end}"));
            }
        }
        chk
    })
}

pub fn typed_handle(h: &AnyH<'_, '_>, n: &Node, reg: &Reg) -> Chk {
    let k = draw(11);
    sim::probe("handle_decoded_typed");
    small_types!(k, T => {
        let td = <T as Zoo>::td();
        let w = want(reg, &td, n);
        let r = if draw(2) == 0 {
            h.decode_as::<T>().map(|x| x.tv())
        } else {
            h.decode(<T as scale_decode::IntoVisitor>::into_visitor::<R>()).map(|x: T| x.tv())
        };
        outcome(n, &w, r, "item handle into a typed target")
    })
}
