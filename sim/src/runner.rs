//! Seeded search over runs, minimisation, replay files, evidence.

use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scenario: Scenario,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const STACK: usize = 16 << 20;
/// Wall-clock limit for one run: the slowest legitimate run takes well under a second.
/// The build this is: checked (debug assertions and overflow checks) or plain (without, as shipped).
pub const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };
const RUN_LIMIT: Duration = Duration::from_secs(60);

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
pub fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let mut s = fnv(fnv(FNV0, prop.as_bytes()), &base.to_le_bytes()) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut s)
}

/// Findings listed in the committed known-findings file: (property, key) -> text.
pub fn known_findings() -> BTreeMap<(String, String), String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(k)) = (it.next(), it.next()) else { continue };
        let Some(k) = k.strip_prefix("key=") else { continue };
        m.insert((p.to_string(), k.to_string()), it.next().unwrap_or("").to_string());
    }
    m
}

/// Executes and turns unlisted known-finding claims into violations.
fn exec_run(p: &Prop, seed: Option<u64>, tape: Option<&[u64]>, tracing: bool, kf: &BTreeMap<(String, String), String>) -> Run {
    let mut r = execute(p.scenario, seed, tape, tracing);
    if r.violation.is_none() {
        for k in r.known.keys() {
            if !kf.contains_key(&(p.id.to_string(), k.clone())) {
                r.violation = Some(Violation { class: k.clone(), msg: format!("unlisted finding {k}") });
                break;
            }
        }
    }
    r
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    ops: u64,
    events: u64,
    draws: u64,
    sim_ns: u128,
    faults: BTreeMap<&'static str, u64>,
    fault_runs: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    rerun: u64,
    diverged: u64,
}
impl Totals {
    fn add(&mut self, r: &Run) {
        self.runs += 1;
        self.ops += r.ops;
        self.events += r.events;
        self.draws += r.tape.len() as u64;
        self.sim_ns += u128::from(r.sim_ns);
        for (k, v) in &r.faults {
            *self.faults.entry(k).or_default() += v;
            *self.fault_runs.entry(k).or_default() += 1;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k).or_default() += v;
        }
        for (k, v) in &r.known {
            *self.known.entry(k.clone()).or_default() += v;
        }
        if r.nontrivial {
            self.nontrivial += 1;
            self.sigs.insert(r.sig);
        }
    }
    fn merge(&mut self, o: Totals) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.ops += o.ops;
        self.events += o.events;
        self.draws += o.draws;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.fault_runs {
            *self.fault_runs.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.sigs.extend(o.sigs);
        self.rerun += o.rerun;
        self.diverged += o.diverged;
    }
}

struct Slot {
    started_ms: AtomicU64,
    idx: AtomicU64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

/// Runs a batch. Exit code of the check.
pub fn check(p: &'static Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = base_seed();
    let kf = Arc::new(known_findings());
    let workers: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).max(1);
    let mut n = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(x) = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    if let Some(x) = std::env::var("VERIF_SHARE").ok().and_then(|s| s.parse::<u64>().ok()) {
        n = n.div_ceil(x.max(1));
    }
    let cap = Duration::from_secs(if tier == "thorough" { 3600 } else { 400 });
    println!("{} {tier}: {BUILD} build, VERIF_SEED={seed}, {n} runs on {workers} workers", p.id);
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let found: Arc<Mutex<BTreeMap<u64, (Violation, Vec<u64>)>>> = Arc::default();
    let capped = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> =
        Arc::new((0..workers).map(|_| Slot { started_ms: AtomicU64::new(0), idx: AtomicU64::new(0) }).collect());
    let total = Arc::new(Mutex::new(Totals::default()));
    let progress = std::env::var_os("VERIF_PROGRESS").and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok()).map(Arc::new);
    // watchdog: code under test that loops without ever calling the world
    {
        let slots = slots.clone();
        let tier = tier.to_string();
        let mut excused = None;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let st = s.started_ms.load(Ordering::SeqCst);
                if st != 0 && now.saturating_sub(st) > RUN_LIMIT.as_millis() as u64 {
                    let idx = s.idx.load(Ordering::SeqCst);
                    // A machine that stood still looks the same: the run gets a second chance.
                    match excused {
                        Some((k, until)) if k == idx && now < until => continue,
                        Some((k, _)) if k == idx => {}
                        _ if finishes(p, idx) => {
                            excused = Some((idx, t0.elapsed().as_millis() as u64 + 2 * RUN_LIMIT.as_millis() as u64));
                            continue;
                        }
                        _ => {}
                    }
                    let path = report_seed(p, &tier, seed, idx, "hang", "one run did not finish within its wall-clock limit", t0);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    std::process::exit(1);
                }
            }
        });
    }
    let mut handles = Vec::new();
    for w in 0..workers {
        let (best, capped, slots, total, kf, progress, found) =
            (best.clone(), capped.clone(), slots.clone(), total.clone(), kf.clone(), progress.clone(), found.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut t = Totals::default();
                    let mut i = w;
                    while i < n {
                        if i > best.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        slots[w as usize].idx.store(i, Ordering::SeqCst);
                        slots[w as usize].started_ms.store((t0.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
                        if let Some(f) = &progress {
                            let _ = f.write_all_at(&(i + 1).to_le_bytes(), w * 8);
                        }
                        let s = run_seed(seed, p.id, i);
                        let r = exec_run(p, Some(s), None, false, &kf);
                        if let Some(v) = &r.violation {
                            found.lock().unwrap().insert(i, (v.clone(), r.tape.clone()));
                            best.fetch_min(i, Ordering::SeqCst);
                        } else if (i / workers) % 97 == 3 {
                            // determinism sample: the recorded tape must give the same execution
                            let r2 = exec_run(p, None, Some(&r.tape), false, &kf);
                            t.rerun += 1;
                            if r2.sig != r.sig || r2.tape != r.tape {
                                t.diverged += 1;
                            }
                        }
                        t.add(&r);
                        slots[w as usize].started_ms.store(0, Ordering::SeqCst);
                        i += workers;
                    }
                    total.lock().unwrap().merge(t);
                })
                .expect("thread"),
        );
    }
    let mut broken = false;
    for h in handles {
        if h.join().is_err() {
            broken = true;
        }
    }
    if broken {
        eprintln!("harness error: a worker panicked outside the code under test");
        return 3;
    }
    let search_s = t0.elapsed().as_secs_f64();
    let total = std::mem::take(&mut *total.lock().unwrap());
    let bad = best.load(Ordering::SeqCst);
    let mut code = 0;
    let mut viol = None;
    if bad != u64::MAX {
        code = 1;
        let seen = found.lock().unwrap().get(&bad).cloned();
        viol = on_big_stack(|| minimise_and_report(p, seed, bad, &kf))
            .or_else(|| report_sequence(p, seed, n.min(bad.saturating_add(1).saturating_mul(2).max(200_000))))
            .or_else(|| {
                // Seen, but neither from its seed nor from a sequence of runs in a new process.
                let (v, tape) = seen.unwrap_or_else(|| (Violation { class: "lost".into(), msg: String::new() }, Vec::new()));
                let path = write_replay(p.id, seed, bad, run_seed(seed, p.id, bad), Some(&tape), &v.class, &v.msg, tape.len(), 0, &[]);
                Some((path, v.class, format!("{} (depends on state the code keeps outside its objects; not reproduced by a replay)", v.msg)))
            });
    }
    let samples = on_big_stack(|| samples(p, seed, n, &kf));
    write_evidence(p, tier, seed, &total, n, workers, search_s, t0.elapsed().as_secs_f64(), capped.load(Ordering::SeqCst), viol.is_some(), &samples);
    println!(
        "{} {tier}: {} runs, {} operations, {} distinct non-trivial executions, {:.1} s simulated, {:.1} s wall; determinism re-runs {} diverged {}",
        p.id, total.runs, total.ops, total.sigs.len(), total.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64(), total.rerun, total.diverged
    );
    for k in total.known.keys() {
        if let Some(text) = kf.get(&(p.id.to_string(), k.clone())) {
            println!("KNOWN-FINDING: property={} {text}", p.id);
        }
    }
    if let Some((path, class, msg)) = viol {
        println!("violated: {class}: {msg}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    code
}

fn samples(p: &Prop, seed: u64, n: u64, kf: &BTreeMap<(String, String), String>) -> Vec<String> {
    let mut v = Vec::new();
    for i in 0..n.min(40) {
        let r = exec_run(p, Some(run_seed(seed, p.id, i)), None, true, kf);
        if r.nontrivial && !r.trace.is_empty() {
            let lines: Vec<String> = r.trace.iter().take(14).map(|l| l.chars().take(220).collect()).collect();
            v.push(format!(
                "{{\"run\": {i}, \"seed\": {}, \"draws\": {}, \"operations\": {}, \"faults\": {}, \"trace_head\": [{}]}}",
                run_seed(seed, p.id, i),
                r.tape.len(),
                r.ops,
                map_json(&r.faults),
                lines.iter().map(|l| esc(l)).collect::<Vec<_>>().join(", ")
            ));
            if v.len() == 3 {
                break;
            }
        }
    }
    v
}
fn map_json(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "))
}
fn arr_json(a: &[&str]) -> String {
    format!("[{}]", a.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, tier: &str, seed: u64, t: &Totals, planned: u64, workers: u64, search_s: f64, wall: f64, capped: bool, viol: bool, samples: &[String]) {
    let per_h = if search_s > 0.0 { t.runs as f64 / search_s * 3600.0 } else { 0.0 };
    let mut cov = String::new();
    let _ = write!(
        cov,
        "{{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"planned_runs\": {planned},\n  \"build\": \"{BUILD}\",\n  \"runs_of_the_plain_build\": {},\n  \"stopped_by_time_cap\": {capped},\n  \"workers\": {workers},\n  \"runs_with_faults_or_nontrivial\": {},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"operations_on_real_code\": {},\n  \"simulator_events\": {},\n  \"random_choices\": {},\n  \"faults_injected\": {},\n  \"runs_with_fault\": {},\n  \"probes\": {},\n  \"distinct_measure\": {},\n  \"determinism_reruns\": {},\n  \"determinism_divergences\": {},\n  \"known_findings_seen\": {},\n  \"components_real\": {},\n  \"components_stub\": {}\n }}",
        t.runs,
        t.sigs.len(),
        esc(p.rule),
        samples.join(", "),
        if BUILD == "plain" { t.runs } else { std::env::var("VERIF_PLAIN_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(0) },
        t.nontrivial,
        per_h,
        t.sim_ns as f64 / 1e9,
        t.ops,
        t.events,
        t.draws,
        map_json(&t.faults),
        map_json(&t.fault_runs),
        map_json(&t.probes),
        esc("hash of the run's whole sequence of operations, peer events, faults and outcomes"),
        t.rerun,
        t.diverged,
        format!("{{{}}}", t.known.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")),
        arr_json(p.real),
        arr_json(p.stub),
    );
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {cov},\n \"assumptions\": {},\n \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n",
        esc(p.id),
        esc(tier),
        arr_json(p.assumptions),
        u8::from(viol)
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), json) {
        eprintln!("cannot write evidence: {e}");
    }
}

/// Minimises the run and writes its replay file; `None` if a new process does not reproduce it.
fn minimise_and_report(p: &Prop, base: u64, idx: u64, kf: &BTreeMap<(String, String), String>) -> Option<(PathBuf, String, String)> {
    let seed = run_seed(base, p.id, idx);
    let r = exec_run(p, Some(seed), None, false, kf);
    let v = r.violation.clone()?;
    let orig = r.tape.len();
    let (tape, tries) = shrink(p, r.tape, &v.class, kf);
    let fin = exec_run(p, None, Some(&tape), true, kf);
    let again = exec_run(p, None, Some(&tape), true, kf);
    let v = fin.violation.clone()?;
    if again.trace != fin.trace {
        eprintln!("warning: replay diverged");
    }
    let path = write_replay(p.id, base, idx, seed, Some(&tape), &v.class, &v.msg, orig, tries, &fin.trace);
    let exe = std::env::current_exe().ok()?;
    let st = std::process::Command::new(exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().ok()?;
    if st.code() == Some(0) {
        let _ = std::fs::remove_file(&path);
        return None;
    }
    Some((path, v.class, v.msg))
}

/// Whether a run comes to its end in a new process.
fn finishes(p: &Prop, idx: u64) -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let Ok(mut c) = std::process::Command::new(exe).args(["one", p.id, &idx.to_string()]).stdout(std::process::Stdio::null()).spawn() else {
        return false;
    };
    let t0 = Instant::now();
    while t0.elapsed() < RUN_LIMIT {
        if matches!(c.try_wait(), Ok(Some(_))) {
            return true;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    let _ = c.kill();
    let _ = c.wait();
    false
}

/// Runs `from..=to` one after another in a new process: the first index that fails.
fn fresh_sequence(p: &Prop, from: u64, to: u64, seconds: u64) -> Option<u64> {
    let exe = std::env::current_exe().ok()?;
    let out = std::process::Command::new(exe).args(["seq", p.id, &from.to_string(), &to.to_string(), &seconds.to_string()]).output().ok()?;
    String::from_utf8_lossy(&out.stdout).lines().find_map(|l| l.strip_prefix("SEQ ")?.parse().ok())
}

/// A violation that one run alone does not show, because the code under test keeps state outside
/// its objects: the history is then a sequence of runs in one new process, as short as possible.
fn report_sequence(p: &Prop, base: u64, n: u64) -> Option<(PathBuf, String, String)> {
    let t0 = Instant::now();
    let mut to = fresh_sequence(p, 0, n.saturating_sub(1), 60)?;
    let mut from = 0;
    // Leave out as many runs at the start as possible.
    let mut step = (to - from).div_ceil(2);
    while step > 0 && t0.elapsed() < Duration::from_secs(150) {
        match fresh_sequence(p, from + step, to, 60) {
            Some(k) => {
                from += step;
                to = k;
                step = step.min((to - from).div_ceil(2));
            }
            None => step /= 2,
        }
    }
    let mut s = String::new();
    let _ = writeln!(s, "property={}\nbuild={BUILD}\nverif_seed={base}\nrun={to}\nsequence={from}..{to}", p.id);
    let path = verif_dir().join("replays").join(format!("{}-{base}-{to}.replay", p.id));
    std::fs::write(&path, s).ok()?;
    let msg = format!("runs {from} to {to}, one after another in one process");
    Some((path, "state outside the objects".into(), msg))
}

/// Runs a sequence of seeds in this process; the first violation ends it.
pub fn seq(p: &'static Prop, from: u64, to: u64, seconds: u64) -> i32 {
    let kf = known_findings();
    let t0 = Instant::now();
    on_big_stack(|| {
        for i in from..=to {
            if t0.elapsed().as_secs() > seconds {
                break;
            }
            let r = exec_run(p, Some(run_seed(base_seed(), p.id, i)), None, std::env::var_os("VERIF_TRACE").is_some(), &kf);
            if let Some(v) = r.violation {
                for l in &r.trace {
                    println!("{l}");
                }
                println!("SEQ {i}\n{}: {}", v.class, v.msg);
                return 1;
            }
        }
        0
    })
}

#[allow(clippy::too_many_arguments)]
fn write_replay(id: &str, base: u64, idx: u64, seed: u64, tape: Option<&[u64]>, class: &str, msg: &str, orig: usize, tries: u64, trace: &[String]) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{base}-{idx}.replay"));
    let mut s = String::new();
    let _ = writeln!(s, "property={id}\nbuild={BUILD}\nverif_seed={base}\nrun={idx}\nseed={seed}\nclass={class}\nmessage={}", msg.replace('\n', " "));
    if let Some(t) = tape {
        let _ = writeln!(s, "original_choices={orig}\nminimised_choices={}\nshrink_executions={tries}", t.len());
        let _ = writeln!(s, "tape={}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
    let _ = writeln!(s, "trace:");
    for l in trace {
        let _ = writeln!(s, "{l}");
    }
    let _ = std::fs::write(&path, s);
    path
}

/// A violation known only by its seed (the run never returned).
fn report_seed(p: &Prop, tier: &str, base: u64, idx: u64, class: &str, msg: &str, t0: Instant) -> PathBuf {
    let path = write_replay(p.id, base, idx, run_seed(base, p.id, idx), None, class, msg, 0, 0, &[]);
    let mut t = Totals::default();
    t.runs = idx + 1;
    write_evidence(p, tier, base, &t, 0, 0, t0.elapsed().as_secs_f64(), t0.elapsed().as_secs_f64(), false, true, &[]);
    println!("violated: {class}: {msg}");
    path
}

fn shrink(p: &Prop, mut tape: Vec<u64>, class: &str, kf: &BTreeMap<(String, String), String>) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let limit = Duration::from_secs(15);
    let test = |t: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        let r = exec_run(p, None, Some(t), false, kf);
        match r.violation {
            Some(v) if v.class == class => {
                let mut used = r.tape;
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some(used)
            }
            _ => None,
        }
    };
    let key = |t: &[u64]| (t.len(), t.iter().map(|x| u128::from(*x)).sum::<u128>());
    if let Some(t) = test(&tape, &mut tries) {
        tape = t;
    }
    let mut improved = true;
    while improved && t0.elapsed() < limit && tries < 20_000 {
        improved = false;
        // delete chunks
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = tape.len();
            while i > 0 && t0.elapsed() < limit {
                let lo = i.saturating_sub(size);
                if lo >= tape.len() {
                    i = lo;
                    continue;
                }
                let mut c = tape.clone();
                c.drain(lo..i.min(tape.len()));
                if let Some(t) = test(&c, &mut tries) {
                    if key(&t) < key(&tape) {
                        tape = t;
                        improved = true;
                    }
                }
                i = lo;
            }
            if size == 1 || tape.len() > 4000 && size < 8 {
                break;
            }
            size /= 2;
        }
        // zero, then lower single values
        let mut i = 0;
        while i < tape.len() && t0.elapsed() < limit {
            if tape[i] != 0 {
                let mut c = tape.clone();
                c[i] = 0;
                if let Some(t) = test(&c, &mut tries) {
                    if key(&t) < key(&tape) {
                        tape = t;
                        improved = true;
                        i += 1;
                        continue;
                    }
                }
                let (mut lo, mut hi) = (0u64, tape[i]);
                while lo + 1 < hi && t0.elapsed() < limit {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = tape.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    match test(&c, &mut tries) {
                        Some(t) if key(&t) < key(&tape) => {
                            tape = t;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
    }
    (tape, tries)
}

/// Replays a file. 1 if the same violation occurs, 0 if not.
pub fn replay(path: &Path, props: &'static [Prop]) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 3;
        }
    };
    let get = |k: &str| text.lines().take_while(|l| *l != "trace:").find_map(|l| l.strip_prefix(&format!("{k}="))).map(str::to_string);
    let Some(id) = get("property") else { return 3 };
    let Some(p) = props.iter().find(|p| p.id == id) else { return 3 };
    let build = get("build").unwrap_or_else(|| BUILD.into());
    if build != BUILD {
        eprintln!("this file belongs to the {build} build, this is the {BUILD} one (replay.sh picks the right one)");
        return 3;
    }
    if let Some((a, b)) = get("sequence").as_deref().and_then(|s| s.split_once("..")) {
        let (Ok(a), Ok(b), Some(base)) = (a.parse(), b.parse(), get("verif_seed")) else { return 3 };
        // Nothing else runs in this process yet.
        unsafe { std::env::set_var("VERIF_SEED", base) };
        let c = seq(p, a, b, 600);
        if c == 1 {
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        return c;
    }
    let kf = known_findings();
    let tape: Option<Vec<u64>> = get("tape").map(|t| t.split(',').filter_map(|x| x.parse().ok()).collect());
    let seed: u64 = get("seed").and_then(|s| s.parse().ok()).unwrap_or(0);
    let class = get("class").unwrap_or_default();
    let show = path.display().to_string();
    std::thread::spawn(move || {
        std::thread::sleep(RUN_LIMIT);
        println!("VIOLATION property={id} replay={show}");
        std::process::exit(1);
    });
    let r = on_big_stack(|| exec_run(p, Some(seed), tape.as_deref(), true, &kf));
    for l in &r.trace {
        println!("{l}");
    }
    let want: Vec<&str> = text.lines().skip_while(|l| *l != "trace:").skip(1).collect();
    let same = tape.is_none() || want.iter().copied().eq(r.trace.iter().flat_map(|l| l.lines()));
    println!("trace identical to the recorded one: {same}");
    match r.violation {
        Some(v) if v.class == class => {
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        Some(v) => {
            println!("a different violation: {}: {}", v.class, v.msg);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Runs one seed (used to find which run brought a process down).
pub fn one(p: &'static Prop, idx: u64) -> i32 {
    let kf = known_findings();
    let r = on_big_stack(|| exec_run(p, Some(run_seed(base_seed(), p.id, idx)), None, std::env::var_os("VERIF_TRACE").is_some(), &kf));
    for l in &r.trace {
        println!("{l}");
    }
    println!("tape {} sig {:x} {:?}", r.tape.len(), r.sig, r.violation);
    i32::from(r.violation.is_some())
}

/// Prints the signature of each run: used to prove determinism across processes.
pub fn sigs(p: &'static Prop, n: u64) -> i32 {
    let kf = known_findings();
    on_big_stack(|| {
        for i in 0..n {
            let r = exec_run(p, Some(run_seed(base_seed(), p.id, i)), None, true, &kf);
            let mut h = FNV0;
            for l in &r.trace {
                h = fnv(h, l.as_bytes());
            }
            println!("{i} {:016x} {:016x} {}", r.sig, h, r.tape.len());
        }
    });
    0
}

/// The check runs in a child process, so that an abort or stack overflow in the code under test is
/// reported as a violation instead of taking the check down.
pub fn supervise(p: &'static Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let prog = dir.join(format!(".progress-{}-{}", p.id, std::process::id()));
    let _ = std::fs::write(&prog, vec![0u8; 8 * 64]);
    let st = std::process::Command::new(&exe).args(["child", p.id, tier]).env("VERIF_PROGRESS", &prog).status();
    let data = std::fs::read(&prog).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            return 3;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    if sig == 9 || sig == 15 {
        return 3; // ended from outside
    }
    let mut cand: Vec<u64> = data.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
    cand.sort();
    for i in cand {
        let s = std::process::Command::new(&exe).args(["one", p.id, &i.to_string()]).stdout(std::process::Stdio::null()).status();
        if s.map(|s| s.signal().is_some_and(|g| g != 9 && g != 15)).unwrap_or(false) {
            let path = report_seed(p, tier, base_seed(), i, "crash", &format!("the process died with signal {sig}"), t0);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
    }
    eprintln!("the check died with signal {sig}, which no single run reproduces");
    3
}
