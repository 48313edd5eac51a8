//! C09: concurrent, re-entrant and repeated decodes.
//!
//! Two to four decode tasks run on real threads, but only the one that holds the baton moves; the tape decides
//! at every type lookup and every consumer callback who moves next. Before that, a history of decodes (failing,
//! rejected and panicking ones among them) runs on the same threads. Every decode is judged against the
//! reference, and typed decodes must give exactly what they gave when they ran alone.

use crate::engine::*;
use crate::gen::TyCfg;
use crate::props::*;
use crate::refm::interp;
use crate::sched::Sched;
use crate::sim::{self, chance, draw, failed, probe, Acts, Class, ConsumerPanic, Sim};
use crate::src_gen::SrcCfg;
use crate::tape::Tape;
use crate::ty::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct Job {
    m: Arc<Msgs>,
    res: Arc<SimResolver>,
    acts: Acts,
    /// What the typed decodes gave when nothing else ran.
    solo: Arc<Vec<Option<String>>>,
    repeat: u64,
}

fn digest(m: &Msgs, res: &SimResolver) -> Vec<Option<String>> {
    let mut out = vec![];
    let mut at = 0;
    for (t, tgt) in m.tids.iter().zip(&m.tgt) {
        let (n, b) = interp(&m.reg, *t, &m.bytes, at);
        if b {
            break;
        }
        out.push(tgt.map(|e| {
            let mut input = &m.bytes[at..];
            let r = (e.dec)(&mut input, *t, res);
            format!("{r:?} leaving {}", input.len())
        }));
        match n.end {
            Some(e) => at = e,
            None => break,
        }
    }
    out
}

fn task_acts() -> Acts {
    let mut a = Acts::plain();
    a.ignore = 2;
    a.iterate = 3;
    a.stop = 1;
    a.skip = 1;
    a.reject = 2;
    a.wrap = 1;
    a.dynamic = 2;
    a.as_tuple = 1;
    a.typed = 2;
    a.takeover = 1;
    a.panic = 1;
    a.keep = 1;
    a.nested = 2;
    let mut a = mix_acts(&a);
    a.tolerate = draw(2) == 1;
    a
}

fn mk(m: Msgs) -> Job {
    let mut res = SimResolver::new(m.reg.clone());
    if chance(1, 4) {
        res = res.use_portable();
        probe("real_portable_registry");
    }
    let solo = digest(&m, &res);
    Job { m: Arc::new(m), res: Arc::new(res), acts: task_acts(), solo: Arc::new(solo), repeat: 1 }
}

fn new_msgs() -> Msgs {
    let mut m = msgs(&MsgCfg {
        max: 2,
        depth: 3,
        typed: 2,
        src: SrcCfg { misfit: *sim::pick(&[0, 8]), off: 0, wrap: 2 },
        trailing: true,
        ty: TyCfg::d(3),
    });
    if draw(3) == 2 {
        damage_all(&mut m);
    }
    m
}

fn job(j: &Job) {
    for _ in 0..j.repeat {
        sim::with(|s| {
            s.acts = j.acts.clone();
            s.rejected = false;
            s.nested_depth = 0;
        });
        set_msg(&j.m.bytes);
        let mut at = 0;
        for (i, (t, tgt)) in j.m.tids.iter().zip(&j.m.tgt).enumerate() {
            let (n, b) = interp(&j.m.reg, *t, &j.m.bytes, at);
            if bomb(b) {
                return;
            }
            // A lookup of this decode, or of one just before it, fails; then it is decoded again.
            if chance(1, 6) {
                let lost = 1 + if chance(1, 2) { draw(12) } else { 0 };
                let kind = draw(3) as u8;
                sim::with(|s| s.transient_at = Some((s.resolves + lost, kind)));
                let r = catch_unwind(AssertUnwindSafe(|| match tgt {
                    Some(e) => {
                        typed_top(&j.res, &j.m.bytes, at, &n, &j.m.reg, e);
                    }
                    None => {
                        visit_top(&j.res, &mut &j.m.bytes[at..], j.m.bytes.len(), &n, &j.m.reg);
                    }
                }));
                sim::with(|s| {
                    if s.transient_fired {
                        *s.probes.entry("retried_after_outage").or_insert(0) += 1;
                    }
                    s.transient_at = None;
                    s.transient_fired = false;
                    s.rejected = false;
                    s.nested_depth = 0;
                });
                if let Err(p) = r {
                    if !p.is::<ConsumerPanic>() {
                        resume_unwind(p);
                    }
                }
                if failed() {
                    return;
                }
            }
            let r = catch_unwind(AssertUnwindSafe(|| match tgt {
                Some(e) => {
                    typed_top(&j.res, &j.m.bytes, at, &n, &j.m.reg, e);
                    let mut input = &j.m.bytes[at..];
                    let r = (e.dec)(&mut input, *t, &*j.res);
                    let now = format!("{r:?} leaving {}", input.len());
                    let was = j.solo.get(i).cloned().flatten();
                    if was.as_ref() != Some(&now) {
                        sim::fail(Class::Isolation, || {
                            format!("decode into {} gave {now}, alone it gave {was:?}", e.name)
                        });
                    }
                }
                None => {
                    let mut input = &j.m.bytes[at..];
                    let (_, kept) = visit_top(&j.res, &mut input, j.m.bytes.len(), &n, &j.m.reg);
                    kept_later(&kept, &j.m.reg, 2);
                }
            }));
            if let Err(p) = r {
                if p.is::<ConsumerPanic>() {
                    probe("decode_abandoned_by_panic");
                } else {
                    resume_unwind(p);
                }
            }
            if failed() {
                return;
            }
            match n.end {
                Some(e) => at = e,
                None => break,
            }
        }
    }
}

pub fn c09() {
    sim::with(|s| s.nontrivial = true);
    // History.
    for _ in 0..draw(3) {
        let mut j = mk(new_msgs());
        if chance(1, 8) && j.m.bytes.len() < 60 {
            j.repeat = 150;
            probe("storm_of_repeated_decodes");
        }
        job(&j);
        probe("sequential_history");
        if failed() {
            return;
        }
    }
    let k = 2 + draw(3) as usize;
    let base = mk(new_msgs());
    let mut plans: Vec<Vec<Job>> = vec![];
    for _ in 0..k {
        let mut v = vec![];
        for _ in 0..1 + draw(2) {
            v.push(match draw(3) {
                0 => {
                    probe("shared_registry");
                    let mut j = base.clone();
                    j.acts = task_acts();
                    j
                }
                // other types under the same ids
                _ => mk(new_msgs()),
            });
        }
        plans.push(v);
    }
    if failed() {
        return;
    }
    let every = *sim::pick(&[3, 2, 6, 20]);
    let on = sim::with(|s| s.trace_on);
    let tape = Arc::new(Mutex::new(sim::with(|s| std::mem::replace(&mut s.tape, Tape::replay(vec![])))));
    let sched = Arc::new(Sched::new(k, tape.clone(), every));
    let mut back: Vec<(Sim, Option<Box<dyn std::any::Any + Send>>)> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, plan) in plans.iter().enumerate() {
            let (tape, sched) = (tape.clone(), sched.clone());
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    sched.wait_turn(i);
                    let mut s = Sim::new(Tape::shared(tape), on);
                    s.sched = Some((sched.clone(), i));
                    s.label = ["task0", "task1", "task2", "task3"][i];
                    s.next_id = 1_000_000 * (i as u64 + 1);
                    sim::install(s);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        for j in plan {
                            job(j);
                            if failed() {
                                break;
                            }
                        }
                    }));
                    let loc = sim::LAST_PANIC.with(|p| p.borrow_mut().take());
                    let mut s = sim::uninstall();
                    s.sched = None;
                    sched.finish(i);
                    (s, r.err(), loc)
                })
                .expect("spawn");
            hs.push(h);
        }
        sched.go();
        for h in hs {
            match h.join() {
                Ok((s, p, loc)) => {
                    if p.is_some() {
                        sim::LAST_PANIC.with(|l| *l.borrow_mut() = loc);
                    }
                    back.push((s, p))
                }
                Err(p) => resume_unwind(p),
            }
        }
    });
    let (switches, hash) = sched.stats();
    drop(sched);
    let mut died = None;
    for (s, p) in back {
        let Sim { tape: t, trace, hash, steps, viol, faults, probes, .. } = s;
        drop(t);
        sim::with(|m| {
            m.hash = m.hash.rotate_left(9) ^ hash;
            m.steps += steps;
            m.trace.extend(trace);
            for (k, v) in faults {
                *m.faults.entry(k).or_insert(0) += v;
            }
            for (k, v) in probes {
                *m.probes.entry(k).or_insert(0) += v;
            }
            if m.viol.is_none() {
                m.viol = viol;
            }
        });
        if died.is_none() {
            died = p;
        }
    }
    let t = Arc::try_unwrap(tape).ok().expect("tape still shared").into_inner().unwrap_or_else(|e| e.into_inner());
    sim::with(|s| {
        s.tape = t;
        *s.faults.entry("task_switch").or_insert(0) += switches;
    });
    sim::ev("schedule", switches, hash);
    if let Some(p) = died {
        resume_unwind(p);
    }
    // And once more when all is quiet.
    job(&Job { acts: Acts::plain(), ..base });
}
