//! The evidence file.

use crate::runner::{root, Found};
use std::collections::BTreeMap;

pub struct Counts {
    pub runs: u64,
    pub distinct: u64,
    pub steps: u64,
    pub rechecked: u64,
    pub mismatch: u64,
    pub choices: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub unreproduced: u64,
    pub truncated: bool,
    pub planned: u64,
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect::<Vec<_>>().join(", "))
}
fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "one case: a stream of 1-4 back-to-back values of random described types, decoded by a consumer that draws what to do at every value, or into typed targets; non-trivial: more than one value, or a fault",
        "C02" => "one case: one value delivered in pieces, a decode attempted at every piece; non-trivial: at least one partial delivery",
        "C03" => "one case: a stream with damaged bytes (flip, overwrite, delete, insert, truncate, swap at structural places); non-trivial: damaged",
        "C04" => "one case: described types made for a typed target (widths, compactness, wrapping, field order, misfits drawn), decoded into it; every one is non-trivial",
        "C05" => "one case: a value decoded under 1-3 rounds of lookup faults (outages of some types, or one lookup failing), then healed; non-trivial: a fault was injected",
        "C06" => "one case: a decode in which the consumer rejects at a drawn place, with damaged bytes or outages elsewhere; non-trivial: something was injected",
        "C07" => "one case: a stream in which the consumer rejects items or values and carries on; non-trivial: something was rejected",
        "C08" => "one case: bytes with a lying length, a truncated tail or deep nesting, decoded under counting allocator and lookup budget; every one is non-trivial",
        "C09" => "one case: a history of decodes then 2-4 tasks interleaved at every lookup and callback; every one is non-trivial",
        "C10" => "one case: values with an identity decoded into a container 1-3 times, the consumer failing or panicking at a drawn element; every one is non-trivial",
        "C11" => "one case: out-of-range values and misfits at drawn places inside typed targets; every one is non-trivial",
        "C12" => "one case: a drawn sequence of container operations checked against a model of the container; every one is non-trivial",
        "C13" => "one case: 1-3 field lists decoded one after the other, with damage, truncation or outages; every one is non-trivial",
        "C14" => "one case: item handles kept and decoded later, in any order, repeatedly; non-trivial: a fault (rejection, re-entry, failed reader) happened",
        "C17" => "one case: a run of one of the other scenarios on a 32-bit machine (WebAssembly), in half of them with damaged lengths mostly around and beyond 32 bits; non-trivial: as in that scenario",
        _ => "",
    }
}
#[allow(clippy::too_many_arguments)]
pub fn write(id: &str, tier: &str, seed: u64, wall: f64, found: &Option<Found>, known: &[String], c: &Counts) {
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut s = String::from("{\n");
    s += &format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n", q(id), q(tier));
    s += "  \"coverage\": {\n";
    s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", c.runs, c.distinct);
    s += &format!(
        "    \"rule\": {},\n",
        q(&format!("{}. Distinct: different event hash (every lookup, callback, choice of action, fault and task switch with its operands, and the bytes sent)", rule(id)))
    );
    s += &format!("    \"samples\": [{}],\n", c.samples.iter().take(3).map(|x| q(x)).collect::<Vec<_>>().join(",\n      "));
    s += &format!("    \"seeds\": {}, \"planned_runs\": {}, \"stopped_by_time_limit\": {},\n", c.runs, c.planned, c.truncated);
    s += &format!("    \"runs_per_hour\": {}, \"seeds_per_hour\": {},\n", per_h(c.runs), per_h(c.runs));
    s += &format!("    \"simulated_time\": {{\"unit\": \"logical steps (seam crossings; the code under test has no clock)\", \"steps\": {}, \"choices_drawn\": {}}},\n", c.steps, c.choices);
    s += &format!("    \"faults_injected\": {},\n", map(&c.faults));
    s += &format!("    \"reached\": {},\n", map(&c.probes));
    s += &format!("    \"replayed_from_recorded_choices\": {}, \"replays_that_differed\": {}, \"violations_not_reproduced\": {},\n", c.rechecked, c.mismatch, c.unreproduced);
    s += "    \"real_code\": [\"scale-decode (visitor, containers, typed targets, errors)\", \"scale-decode-derive (generated targets)\", \"parity-scale-codec\", \"scale-bits\", \"scale-type-resolver visitors\", \"scale-info PortableRegistry (in the runs counted as real_portable_registry)\"],\n";
    if id == "C17" {
        s += "    \"executed_by\": \"wasm32 build of library, derive and simulator (usize of 32 bits, overflow checks on), run by node\",\n";
    }
    s += "    \"stubs\": [\"registry service (SimResolver, faultable)\", \"byte delivery\", \"consumer visitors\", \"task scheduler (real threads, one baton)\", \"allocator (system allocator behind a counting, capped one)\"]\n  },\n";
    s += "  \"assumptions\": [\"the reference interpreter and conversion model in sim/src state the documented meaning\", \"tasks switch only at type lookups and consumer callbacks\", \"lists of more than 200000 zero-size elements are not generated (known finding)\"],\n";
    s += &format!("  \"known_findings\": [{}],\n", known.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "));
    if let Some(f) = found {
        s += &format!("  \"violation\": {{\"class\": {}, \"message\": {}, \"replay\": {}}},\n", q(&f.case.class), q(&f.case.msg), q(&f.replay.display().to_string()));
    }
    s += &format!("  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n", found.is_some() as u32);
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{id}.json")), s).expect("evidence");
}
