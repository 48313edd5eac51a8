//! Executes runs, supervises worker processes, confirms, minimises and replays violations, writes evidence.

use crate::props::{Prop, PROPS};
use crate::io;
use crate::sim::{self, Class, ConsumerPanic, Sim, StepLimit};
use crate::tape::{self, mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Outcome {
    pub viol: Option<(Class, String)>,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub tape: Vec<u64>,
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if p.is::<ConsumerPanic>() || p.is::<StepLimit>() {
            return;
        }
        crate::alloc::pause(|| sim::LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{loc}: {msg}"))));
    }));
}

/// Samples are for reading; keep them short.
fn clip(mut s: String) -> String {
    if let Some((i, _)) = s.char_indices().nth(4000) {
        s.truncate(i);
        s.push_str("..");
    }
    s
}

pub fn run_seed(seed: u64, prop: &Prop, idx: u64) -> u64 {
    let p = prop.id.bytes().fold(0u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    mix(mix(seed ^ mix(p)).wrapping_add(idx))
}

/// One simulated execution, on a thread of its own.
pub fn execute(prop: &'static Prop, t: Tape, trace: bool) -> Outcome {
    let r = io::on_own_thread(move || {
        sim::install(Sim::new(t, trace));
        let r = catch_unwind(AssertUnwindSafe(|| (prop.run)()));
        crate::alloc::stop();
        let last = sim::LAST_PANIC.with(|l| l.borrow_mut().take());
        let mut s = sim::uninstall();
        let mut viol = s.viol.take().map(|v| (v.class, v.msg));
        let r = match r {
            Err(p) if p.is::<sim::TooBig>() => {
                *s.probes.entry("too_big_skipped").or_insert(0) += 1;
                Ok(())
            }
            r => r,
        };
        if let Err(p) = r {
            let v = if p.is::<StepLimit>() {
                (Class::Work, "step budget exceeded".to_string())
            } else if p.is::<ConsumerPanic>() {
                (Class::Harness, "consumer panic escaped".into())
            } else {
                let m = last.unwrap_or_default();
                let own = m.starts_with("src/") && !m.starts_with("src/zoo.rs") && !m.starts_with("src/tracked.rs");
                (if own { Class::Harness } else { Class::Panic }, format!("panic at {m}"))
            };
            if trace {
                s.trace.push(format!("VIOLATION {:?}: {}", v.0, v.1));
            }
            // what was found wrong first is what counts
            viol = viol.or(Some(v));
        }
        Outcome {
            viol,
            hash: s.hash,
            steps: s.steps,
            nontrivial: s.nontrivial,
            faults: s.faults,
            probes: s.probes,
            trace: s.trace,
            tape: s.tape.rec,
        }
    });
    match r {
        Some(o) => o,
        None => Outcome {
            viol: Some((Class::Harness, "run thread died".into())),
            hash: 0,
            steps: 0,
            nontrivial: false,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            trace: vec![],
            tape: vec![],
        },
    }
}

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

// ------------------------------------------------------------------ worker
/// Every so many runs one is done again from its recorded choices.
const RECHECK: u64 = 97;
/// args: prop seed worker stride total start dir
pub fn worker(a: &[String]) {
    let prop = find(&a[0]);
    let n: Vec<u64> = a[1..6].iter().map(|x| x.parse().unwrap()).collect();
    let (seed, me, stride, total, start) = (n[0], n[1], n[2], n[3], n[4]);
    let dir = PathBuf::from(&a[6]);
    let mut status = io::Log::create(&dir.join(format!("w{me}.status"))).unwrap();
    let mut out = io::Log::create(&dir.join(format!("w{me}.out"))).unwrap();
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut rechecked, mut mismatch, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut idx = start;
    while idx < total {
        status.put(&idx.to_le_bytes());
        let o = execute(prop, Tape::seeded(run_seed(seed, prop, idx)), idx < 3);
        runs += 1;
        steps += o.steps;
        choices += o.tape.len() as u64;
        if o.nontrivial {
            hashes.insert(o.hash);
        }
        for (k, v) in &o.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if idx < 3 {
            let t: Vec<String> = o.trace.iter().take(40).cloned().collect();
            out.add(&format!("T {idx} {}\n", clip(one_line(&t.join("\n")))));
        }
        if let Some((c, m)) = &o.viol {
            out.add(&format!("V {idx} {c:?} {}\n", one_line(m)));
            io::exit(3);
        }
        if runs % RECHECK == 0 {
            // the recorded choices alone must give the same execution
            let p = execute(prop, Tape::replay(o.tape.clone()), false);
            rechecked += 1;
            if (p.hash, p.steps, p.tape.len()) != (o.hash, o.steps, o.tape.len()) {
                mismatch += 1;
                out.add(&format!("M {idx}\n"));
            }
        }
        idx += stride;
    }
    out.add(&format!("R {runs} {steps} {rechecked} {mismatch} {choices}\n"));
    for (k, v) in faults {
        out.add(&format!("F {k} {v}\n"));
    }
    for (k, v) in probes {
        out.add(&format!("P {k} {v}\n"));
    }
    let b: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    io::write(&dir.join(format!("w{me}.hashes")), &b);
    out.add(&format!("END\n"));
}

// ------------------------------------------------------------------ children
/// The 32-bit build and what runs it.
fn wasm() -> (PathBuf, PathBuf) {
    let d = std::env::current_exe().unwrap();
    let sim = d.ancestors().nth(3).unwrap_or(Path::new("/verif/sim"));
    let dir = std::env::var("SIM_WASM").map(PathBuf::from).unwrap_or_else(|_| sim.join("wasm"));
    (dir.join("host.mjs"), dir.join("target/sim.wasm"))
}
/// Runs of C17 are executed by a 32-bit build of this same program.
fn me(prop: &str) -> Command {
    let mut c;
    if prop == "C17" {
        let (host, module) = wasm();
        c = Command::new("node");
        c.arg(host).arg(module);
    } else {
        c = Command::new(std::env::current_exe().unwrap());
    }
    c.stdin(Stdio::null());
    c
}
fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = s.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
enum End {
    Exit(i32),
    Signal,
    Hang,
}
/// Wait for a child; a child that burns `cpu` seconds or stays for `wall` seconds hangs.
fn wait(c: &mut Child, cpu: u64, wall: Duration) -> End {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return match s.code() {
                Some(c) => End::Exit(c),
                None => End::Signal,
            };
        }
        if t.elapsed() > wall || cpu_ticks(c.id()) > cpu * 100 {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 500 { 2 } else { 30 }));
    }
}

/// What to execute: a history of seeded runs in the same process, then one tape (or seeded run).
#[derive(Clone, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub history: Vec<u64>,
    pub tape: Option<Vec<u64>>,
    pub class: String,
    pub msg: String,
    pub trace: Vec<String>,
}
impl Case {
    fn save(&self, p: &Path) {
        let mut s = format!("property: {}\nseed: {}\nrun: {}\n", self.prop, self.seed, self.idx);
        if !self.class.is_empty() {
            s += &format!("class: {}\nmessage: {}\n", self.class, one_line(&self.msg));
        }
        if !self.history.is_empty() {
            s += &format!("history: {}\n", self.history.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        if let Some(t) = &self.tape {
            s += &format!("tape: {}\n", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        for l in &self.trace {
            s += &format!("trace: {}\n", one_line(l));
        }
        io::write(p, s.as_bytes());
    }
    pub fn load(p: &Path) -> Case {
        let mut c = Case::default();
        let nums = |s: &str| s.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
        let text = String::from_utf8(io::read(p).unwrap_or_default()).unwrap_or_default();
        for l in text.lines() {
            let Some((k, v)) = l.split_once(':') else { continue };
            let v = v.strip_prefix(' ').unwrap_or(v);
            match k {
                "property" => c.prop = v.into(),
                "seed" => c.seed = v.trim().parse().unwrap_or(0),
                "run" => c.idx = v.trim().parse().unwrap_or(0),
                "class" => c.class = v.into(),
                "message" => c.msg = v.into(),
                "history" => c.history = nums(v),
                "tape" => c.tape = Some(nums(v)),
                "trace" => c.trace.push(v.into()),
                _ => {}
            }
        }
        c
    }
    fn execute(&self, trace: bool) -> Outcome {
        let prop = find(&self.prop);
        for h in &self.history {
            execute(prop, Tape::seeded(run_seed(self.seed, prop, *h)), false);
        }
        let t = match &self.tape {
            Some(t) => Tape::replay(t.clone()),
            None => Tape::seeded(run_seed(self.seed, prop, self.idx)),
        };
        execute(prop, t, trace)
    }
}
/// Child: run a case from a file, write the outcome to another. Exit 3 on a violation.
pub fn one(a: &[String]) {
    let mut c = Case::load(Path::new(&a[0]));
    let prop = find(&c.prop);
    for h in std::mem::take(&mut c.history) {
        execute(prop, Tape::seeded(run_seed(c.seed, prop, h)), false);
    }
    *tape::LOG.lock().unwrap() = io::Log::create(Path::new(&format!("{}.log", a[1])));
    tape::LOG_ON.store(true, std::sync::atomic::Ordering::Relaxed);
    let o = c.execute(true);
    c.tape = Some(o.tape);
    c.trace = o.trace;
    match o.viol {
        Some((k, m)) => {
            c.class = format!("{k:?}");
            c.msg = m;
            c.save(Path::new(&a[1]));
            io::exit(3);
        }
        None => {
            c.class = String::new();
            c.save(Path::new(&a[1]));
        }
    }
}
/// Run a case in a fresh process. Some(case with class and tape) if it violates.
fn try_case(c: &Case, dir: &Path) -> Option<Case> {
    let (i, o) = (dir.join("case.in"), dir.join("case.out"));
    let _ = std::fs::remove_file(&o);
    c.save(&i);
    let mut ch = me(&c.prop).arg("one").arg(&i).arg(&o).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let end = wait(&mut ch, 40, Duration::from_secs(120));
    let crashed = |class: &str, msg: &str| {
        let log = std::fs::read_to_string(dir.join("case.out.log")).unwrap_or_default();
        let t = log.lines().filter_map(|x| x.parse().ok()).collect();
        let mut r = c.clone();
        r.tape = Some(t);
        r.class = class.into();
        r.msg = msg.into();
        r.trace = vec![];
        Some(r)
    };
    match end {
        End::Exit(0) => None,
        End::Exit(3) => {
            let mut r = Case::load(&o);
            r.history = c.history.clone();
            Some(r)
        }
        End::Exit(_) | End::Signal => crashed("Crash", "the process died (abort, memory exhaustion or stack overflow)"),
        End::Hang => crashed("Hang", "no end within the time limit"),
    }
}

// ------------------------------------------------------------------ minimising
fn candidates(t: &[u64], round: &mut usize) -> Option<Vec<u64>> {
    // A deterministic enumeration of simplifications, indexed by `round`.
    let n = t.len();
    let mut r = *round;
    *round += 1;
    let mut size = n;
    // cut off the end, then delete blocks, then zero blocks
    while size > 0 {
        let blocks = n.div_ceil(size);
        if r < blocks {
            let a = n - ((r + 1) * size).min(n);
            let b = n - r * size;
            let mut v = t[..a].to_vec();
            v.extend_from_slice(&t[b..]);
            return Some(v);
        }
        r -= blocks;
        if r < blocks {
            let a = r * size;
            let b = (a + size).min(n);
            if t[a..b].iter().all(|x| *x == 0) {
                return Some(vec![]);
            }
            let mut v = t.to_vec();
            v[a..b].fill(0);
            return Some(v);
        }
        r -= blocks;
        size /= 2;
    }
    if r < 2 * n {
        let mut v = t.to_vec();
        let i = r / 2;
        if v[i] < 2 {
            return Some(vec![]);
        }
        v[i] = if r % 2 == 0 { v[i] / 2 } else { v[i] - 1 };
        return Some(v);
    }
    None
}
fn shrink_with(c: &Case, budget: Duration, mut test: impl FnMut(&[u64]) -> Option<Case>, mut better: impl FnMut(&Case)) -> Case {
    let t0 = io::Clock::start();
    let mut best = c.clone();
    let mut round = 0;
    while t0.secs() < budget.as_secs_f64() {
        let t = best.tape.clone().unwrap_or_default();
        let Some(v) = candidates(&t, &mut round) else { break };
        if v == t || (v.is_empty() && !t.is_empty() && round > 1) {
            continue;
        }
        if let Some(n) = test(&v) {
            let nt = n.tape.clone().unwrap_or_default();
            let key = |t: &[u64]| (t.len(), t.iter().filter(|x| **x != 0).count(), t.iter().map(|x| *x as u128).sum::<u128>());
            if n.class == best.class && key(&nt) < key(&t) {
                best = n;
                round = round.saturating_sub(1 + round / 8);
                better(&best);
            }
        }
    }
    best
}
/// Child: minimise in process.
pub fn shrink(a: &[String]) {
    let c = Case::load(Path::new(&a[0]));
    let budget = Duration::from_secs(a[2].parse().unwrap());
    let out = PathBuf::from(&a[1]);
    shrink_with(
        &c,
        budget,
        |t| {
            let d = Case { tape: Some(t.to_vec()), ..c.clone() };
            let o = d.execute(false);
            let (k, m) = o.viol?;
            let mut tp = o.tape;
            while tp.last() == Some(&0) {
                tp.pop();
            }
            Some(Case { tape: Some(tp), class: format!("{k:?}"), msg: m, ..d })
        },
        |b| b.save(&out),
    );
}

// ------------------------------------------------------------------ parent
pub struct Found {
    pub case: Case,
    pub replay: PathBuf,
}
#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    rechecked: u64,
    mismatch: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    unreproduced: u64,
    truncated: bool,
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn check(id: &str) -> i32 {
    let prop = find(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let total = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { prop.quick } else { prop.thorough });
    let wall = Duration::from_secs(if tier == "quick" { 420 } else { 4 * 3600 });
    let dir = std::env::temp_dir().join(format!("sim-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut agg = Agg::default();
    let found = campaign(prop, seed, total, wall, &dir, &mut agg);
    let known = crate::known::report(id);
    let code = match &found {
        Some(f) => {
            println!("violation: {} {}", f.case.class, f.case.msg);
            println!("VIOLATION property={id} replay={}", f.replay.display());
            1
        }
        None if agg.steps == 0 => {
            println!("{id}: no run got anywhere");
            2
        }
        None => {
            println!("{id}: held on {} runs ({} distinct non-trivial), {} steps, {:.1} s", agg.runs, agg.hashes.len(), agg.steps, t0.elapsed().as_secs_f64());
            0
        }
    };
    crate::evidence::write(id, tier, seed, t0.elapsed().as_secs_f64(), &found, &known, &crate::evidence::Counts {
        runs: agg.runs,
        distinct: agg.hashes.len() as u64,
        steps: agg.steps,
        rechecked: agg.rechecked,
        mismatch: agg.mismatch,
        choices: agg.choices,
        faults: agg.faults,
        probes: agg.probes,
        samples: agg.samples,
        unreproduced: agg.unreproduced,
        truncated: agg.truncated,
        planned: total,
    });
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn campaign(prop: &'static Prop, seed: u64, total: u64, wall: Duration, dir: &Path, agg: &mut Agg) -> Option<Found> {
    let w: u64 = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let mut starts: Vec<u64> = (0..w).collect();
    loop {
        let mut next = starts.clone();
        if let Some(f) = round(prop, seed, total, w, wall.saturating_sub(t0.elapsed()), dir, agg, &starts, &mut next) {
            return Some(f);
        }
        if next.iter().all(|s| *s >= total) || t0.elapsed() >= wall || agg.unreproduced > 30 {
            return None;
        }
        // Something that did not happen again stopped this round; go on with what is left.
        starts = next;
    }
}

/// Run the workers, each from where it is to start. Where they are to go on is put into `next`.
#[allow(clippy::too_many_arguments)]
fn round(prop: &'static Prop, seed: u64, total: u64, w: u64, wall: Duration, dir: &Path, agg: &mut Agg, starts: &[u64], next: &mut [u64]) -> Option<Found> {
    let t0 = Instant::now();
    for i in 0..w {
        let _ = std::fs::remove_file(dir.join(format!("w{i}.status")));
        let _ = std::fs::remove_file(dir.join(format!("w{i}.out")));
        let _ = std::fs::remove_file(dir.join(format!("w{i}.hashes")));
    }
    let mut kids: Vec<Option<Child>> = (0..w)
        .map(|i| {
            me(prop.id).args(["worker", prop.id, &seed.to_string(), &i.to_string(), &w.to_string(), &total.to_string(), &starts[i as usize].to_string()])
                .arg(dir)
                .stdout(Stdio::inherit())
                .stderr(Stdio::null())
                .spawn()
                .ok()
        })
        .collect();
    let cur = |i: usize| -> u64 {
        std::fs::read(dir.join(format!("w{i}.status")))
            .ok()
            .and_then(|b| b.try_into().ok().map(u64::from_le_bytes))
            .unwrap_or(starts[i])
    };
    let mut suspects: Vec<(u64, u64)> = vec![]; // (run, worker)
    let mut mark: Vec<(u64, u64, Instant)> = (0..w as usize).map(|_| (u64::MAX, 0, Instant::now())).collect();
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..kids.len() {
            let Some(k) = kids[i].as_mut() else { continue };
            match k.try_wait() {
                Ok(Some(s)) => {
                    kids[i] = None;
                    if !s.success() {
                        suspects.push((cur(i), i as u64));
                    }
                }
                _ => {
                    let (c, cpu) = (cur(i), cpu_ticks(k.id()));
                    let m = &mut mark[i];
                    if c != m.0 {
                        *m = (c, cpu, Instant::now());
                    } else if cpu.saturating_sub(m.1) > 2500 || m.2.elapsed() > Duration::from_secs(100) {
                        let _ = k.kill();
                        let _ = k.wait();
                        kids[i] = None;
                        suspects.push((c, i as u64));
                    }
                }
            }
        }
        if !suspects.is_empty() || t0.elapsed() > wall {
            agg.truncated |= suspects.is_empty();
            for k in kids.iter_mut() {
                if let Some(mut k) = k.take() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
            }
        }
    }
    // gather
    let mut reported = vec![];
    for i in 0..w {
        let s = std::fs::read_to_string(dir.join(format!("w{i}.out"))).unwrap_or_default();
        let mut ended = false;
        for l in s.lines() {
            let f: Vec<&str> = l.splitn(3, ' ').collect();
            match f[0] {
                "V" => reported.push((f[1].parse::<u64>().unwrap_or(0), i)),
                "T" => agg.samples.push(format!("run {}: {}", f[1], f.get(2).unwrap_or(&""))),
                "R" => {
                    let n: Vec<u64> = l[2..].split(' ').filter_map(|x| x.parse().ok()).collect();
                    agg.runs += n[0];
                    agg.steps += n[1];
                    agg.rechecked += n[2];
                    agg.mismatch += n[3];
                    agg.choices += n[4];
                    ended = true;
                }
                "F" => *agg.faults.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "P" => *agg.probes.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                _ => {}
            }
        }
        next[i as usize] = if ended {
            u64::MAX
        } else {
            let c = cur(i as usize);
            agg.runs += c.saturating_sub(starts[i as usize]) / w + 1;
            // a run that was cut short is done again, one that is under suspicion isn't
            if suspects.iter().any(|s| s.1 == i) { c + w } else { c }
        };
        if let Ok(b) = std::fs::read(dir.join(format!("w{i}.hashes"))) {
            agg.hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    agg.samples.sort();
    for r in reported {
        if !suspects.contains(&r) {
            suspects.push(r);
        }
    }
    suspects.sort();
    for (idx, wk) in suspects {
        if let Some(f) = confirm(prop, seed, idx, starts[wk as usize], w, dir) {
            return Some(f);
        }
        agg.unreproduced += 1;
    }
    None
}

fn confirm(prop: &'static Prop, seed: u64, idx: u64, start: u64, stride: u64, dir: &Path) -> Option<Found> {
    let base = Case { prop: prop.id.into(), seed, idx, ..Case::default() };
    let mut got = try_case(&base, dir);
    if got.is_none() {
        // it needs what ran before it in the same process
        // (every 97th run was done twice)
        let all: Vec<u64> = (0u64..)
            .map(|k| (k, start + k * stride))
            .take_while(|x| x.1 < idx)
            .flat_map(|(k, x)| std::iter::repeat(x).take(if (k + 1) % RECHECK == 0 { 2 } else { 1 }))
            .collect();
        let mut n = 1;
        while !all.is_empty() {
            let h = all[all.len().saturating_sub(n)..].to_vec();
            got = try_case(&Case { history: h, ..base.clone() }, dir);
            if got.is_some() || n >= all.len() {
                break;
            }
            n *= 8;
        }
        // drop what isn't needed of that history
        let t0 = Instant::now();
        let mut size = got.as_ref().map_or(0, |c| c.history.len() / 2);
        while size > 0 && t0.elapsed() < Duration::from_secs(20) {
            let mut at = 0;
            while t0.elapsed() < Duration::from_secs(20) {
                let mut h = got.as_ref().unwrap().history.clone();
                if at >= h.len() {
                    break;
                }
                h.drain(at..(at + size).min(h.len()));
                match try_case(&Case { history: h, ..base.clone() }, dir) {
                    Some(c) if c.class == got.as_ref().unwrap().class => got = Some(c),
                    _ => at += size,
                }
            }
            size /= 2;
        }
    }
    let mut best = got?;
    let first = best.clone();
    let crash = best.class == "Crash" || best.class == "Hang";
    if best.history.is_empty() {
        if best.class == "Hang" {
            // each attempt would cost the whole time limit
        } else if crash {
            best = shrink_with(
                &best.clone(),
                Duration::from_secs(15),
                |t| {
                    let c = Case { tape: Some(t.to_vec()), ..first.clone() };
                    try_case(&c, dir)
                },
                |_| {},
            );
        } else {
            let (i, o) = (dir.join("shrink.in"), dir.join("shrink.out"));
            best.save(&i);
            if let Ok(mut ch) = me(prop.id).arg("shrink").arg(&i).arg(&o).arg("15").stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
                wait(&mut ch, 60, Duration::from_secs(30));
            }
            if o.exists() {
                let c = Case::load(&o);
                if c.tape.is_some() {
                    best = c;
                }
            }
        }
        // must reproduce from the file alone
        match try_case(&best, dir) {
            Some(b) if b.class == first.class => best = b,
            _ => best = try_case(&first, dir)?,
        }
    }
    best.trace.truncate(400);
    let rd = root().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let p = rd.join(format!("{}-seed{}-run{}.txt", prop.id, seed, idx));
    best.save(&p);
    Some(Found { case: best, replay: p })
}

/// Replay a file in a fresh process.
pub fn replay(f: &str) -> i32 {
    let c = Case::load(Path::new(f));
    if c.prop.is_empty() {
        eprintln!("cannot read {f}");
        return 2;
    }
    let dir = std::env::temp_dir().join(format!("sim-{}-replay", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = try_case(&Case { class: String::new(), trace: vec![], ..c.clone() }, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some(r) => {
            for l in &r.trace {
                println!("{l}");
            }
            println!("recorded: {} {}", c.class, c.msg);
            println!("replayed: {} {}", r.class, r.msg);
            if !c.trace.is_empty() {
                let t: Vec<String> = r.trace.iter().take(400).cloned().collect();
                println!("trace identical: {}", t == c.trace);
            }
            println!("VIOLATION property={} replay={f}", c.prop);
            1
        }
        None => {
            println!("not reproduced: {}", c.prop);
            0
        }
    }
}

/// One seeded run, verbosely.
pub fn show(a: &[String]) {
    let c = Case { prop: a[0].clone(), seed: a[1].parse().unwrap(), idx: a[2].parse().unwrap(), ..Case::default() };
    let o = c.execute(true);
    for l in &o.trace {
        println!("{l}");
    }
    println!("steps {} choices {} viol {:?}", o.steps, o.tape.len(), o.viol);
}
