//! Known findings: demonstrated on every run of the check they belong to.

use crate::runner::root;
use crate::sim::{self, Sim, StepLimit};
use crate::tape::Tape;
use crate::ty::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};

/// (key in known-findings.txt, property, what fails)
const ALL: &[(&str, &str, &str)] = &[
    ("zero-size-list", "C08", "a list type of zero-size elements with a huge claimed length makes the decoder do one lookup per claimed element (5 bytes of input, 2^32-1 lookups)"),
    ("recursive-type", "C08", "a recursive described type lets a short input recurse once per byte, without a limit, until the stack overflows and the process aborts"),
];

pub fn report(id: &str) -> Vec<String> {
    let file = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for (key, p, what) in ALL {
        if *p != id || !file.lines().any(|l| l.starts_with(&format!("known: property={p} {key}"))) {
            continue;
        }
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["demo", key])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        // 0: behaves well now; anything else: still there
        if !matches!(st, Ok(s) if s.success()) {
            println!("KNOWN-FINDING: property={p} {what}");
            out.push(format!("{key}: {what}"));
        }
    }
    out
}

pub fn demo(key: &str) -> i32 {
    let mut reg = Reg::new();
    let mut s = Sim::new(Tape::replay(vec![]), false);
    match key {
        "zero-size-list" => {
            s.step_limit = 5_000_000;
            sim::install(s);
            let z = reg.add(Ty::Tuple(vec![]));
            let t = reg.add(Ty::Seq(vec![], z));
            let res = SimResolver::new(reg);
            let b = [0x03u8, 0xff, 0xff, 0xff, 0xff];
            let r = catch_unwind(AssertUnwindSafe(|| {
                decode_with_visitor(&mut &b[..], t, &res, IgnoreVisitor::<SimResolver>::new()).is_ok()
            }));
            match r {
                Err(p) if p.is::<StepLimit>() => 1,
                _ => 0,
            }
        }
        "recursive-type" => {
            s.step_limit = u64::MAX;
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                sim::install(s);
                // T = [T]
                let t = reg.add(Ty::Seq(vec![], 1));
                let res = SimResolver::new(reg);
                let b = vec![0x04u8; 1 << 20];
                let _ = decode_with_visitor(&mut &b[..], t, &res, IgnoreVisitor::<SimResolver>::new());
            });
            match h.unwrap().join() {
                Ok(_) => 0,
                Err(_) => 1,
            }
        }
        _ => 2,
    }
}
