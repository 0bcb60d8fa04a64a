//! Choice tape, per-run context, violations.
//!
//! Every decision of a run (inputs, schedule, delays, faults) is one `draw`. In search mode draws
//! come from a PRNG seeded by (VERIF_SEED, property, run index); in replay mode they come from a
//! recorded tape (0 when the tape is exhausted, and 0 always means "simplest, no fault").

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, data: &[u8]) -> u64 {
    let mut h = h;
    for b in data {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

enum Source {
    Rng(u64),
    Tape(Vec<u64>, usize),
}

pub struct Run {
    src: Source,
    pub tape: Vec<u64>,
    uniq: u64,
    pub violation: Option<Violation>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub sig: u64,
    pub events: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
    in_sut: u32,
    panic_note: Option<String>,
}

impl Run {
    fn new(src: Source, tracing: bool) -> Run {
        Run {
            src,
            tape: Vec::new(),
            uniq: 0,
            violation: None,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            known: BTreeMap::new(),
            sig: FNV0,
            events: 0,
            ops: 0,
            sim_ns: 0,
            nontrivial: false,
            tracing,
            trace: Vec::new(),
            in_sut: 0,
            panic_note: None,
        }
    }
}

thread_local! {
    static RUN: RefCell<Option<Run>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut Run) -> R) -> R {
    RUN.with(|r| f(r.borrow_mut().as_mut().expect("no run")))
}

/// Payload used to unwind out of the code under test when it can never make progress.
pub struct SimHang(pub String);
/// Payload used to unwind out of a run whose violation is already recorded.
pub struct Abort;

/// Uniform draw in `0..n` (n >= 1).
pub fn draw(n: u64) -> u64 {
    with(|r| {
        let n = n.max(1);
        let v = match &mut r.src {
            Source::Rng(s) => {
                let x = splitmix(s);
                ((x as u128 * n as u128) >> 64) as u64
            }
            Source::Tape(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                v.min(n - 1)
            }
        };
        r.tape.push(v);
        v
    })
}
/// True with probability num/den; a zero draw is always false.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    draw(den) >= den - num.min(den)
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi.saturating_sub(lo).saturating_add(1))
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[draw(xs.len() as u64) as usize].clone()
}
/// Weighted index; index 0 is the simplest.
pub fn weighted(ws: &[u64]) -> usize {
    let total: u64 = ws.iter().sum();
    let mut d = draw(total);
    for (i, w) in ws.iter().enumerate() {
        if d < *w {
            return i;
        }
        d -= w;
    }
    ws.len() - 1
}
/// `len` unique-looking bytes: two calls in one run never give the same stream.
pub fn bytes(len: usize) -> Vec<u8> {
    let seed = draw(1 << 32);
    let mut s = with(|r| {
        r.uniq += 1;
        seed ^ (r.uniq << 40)
    });
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(len);
    v
}
/// A value with boundary bias.
pub fn int(bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match draw(8) {
        0 => draw(4),
        1 => max - draw(4),
        2 => {
            let sh = draw(bits as u64);
            (1u64 << sh).wrapping_add(draw(3)).wrapping_sub(1) & max
        }
        _ => {
            if bits == 64 {
                (draw(1 << 32) << 32) | draw(1 << 32)
            } else {
                draw(max.saturating_add(1))
            }
        }
    }
}
/// Size with bias to 0, small, and `max`.
pub fn size(max: usize) -> usize {
    let max = max as u64;
    (match draw(6) {
        0 => draw(4.min(max + 1)),
        1 | 2 => draw(65.min(max + 1)),
        3 => max - draw(4.min(max + 1)),
        _ => draw(max + 1),
    }) as usize
}

pub fn fault(kind: &'static str) {
    with(|r| {
        *r.faults.entry(kind).or_default() += 1;
        r.nontrivial = true;
    });
    note(kind.as_bytes());
}
/// A coverage probe: an interesting situation was reached.
pub fn probe(kind: &'static str) {
    with(|r| *r.probes.entry(kind).or_default() += 1);
}
pub fn nontrivial() {
    with(|r| r.nontrivial = true);
}
pub fn known(what: impl Into<String>) {
    with(|r| *r.known.entry(what.into()).or_default() += 1);
}
/// Feeds the run signature (the measure of distinct executions).
pub fn note(data: &[u8]) {
    with(|r| {
        r.sig = fnv(r.sig, data);
        r.sig = fnv(r.sig, &[0xff]);
        r.events += 1;
    });
}
pub fn op_done() {
    with(|r| r.ops += 1);
}
pub fn add_sim_time(ns: u64) {
    with(|r| r.sim_ns += ns);
}
pub fn tracing() -> bool {
    with(|r| r.tracing)
}
pub fn trace_line(s: String) {
    with(|r| {
        if r.trace.len() < 4000 {
            r.trace.push(s)
        }
    });
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { if $crate::engine::tracing() { $crate::engine::trace_line(format!($($a)*)); } };
}

pub fn fail(class: &str, msg: impl Into<String>) {
    with(|r| {
        if r.violation.is_none() {
            let msg = msg.into();
            if r.tracing {
                r.trace.push(format!("!! {class}: {msg}"));
            }
            r.violation = Some(Violation { class: class.into(), msg });
        }
    });
}
pub fn failed() -> bool {
    with(|r| r.violation.is_some())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { $crate::engine::fail($class, format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Runs code under test. A panic in it is a violation; a hang is a violation.
pub fn sut<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    with(|r| r.in_sut += 1);
    let res = catch_unwind(AssertUnwindSafe(f));
    let note = with(|r| {
        r.in_sut -= 1;
        r.panic_note.take()
    });
    match res {
        Ok(v) => Some(v),
        Err(p) => {
            if p.is::<Abort>() {
                resume_unwind(p);
            }
            if let Some(h) = p.downcast_ref::<SimHang>() {
                fail("hang", format!("{what}: {}", h.0));
            } else {
                fail("panic", format!("{what}: {}", note.unwrap_or_else(|| payload(&p))));
            }
            None
        }
    }
}
fn payload(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = RUN.with(|r| match r.try_borrow_mut() {
            Ok(mut g) => match g.as_mut() {
                Some(run) if run.in_sut > 0 => {
                    if !(info.payload().is::<SimHang>() || info.payload().is::<Abort>()) {
                        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                            s.to_string()
                        } else if let Some(s) = info.payload().downcast_ref::<String>() {
                            s.clone()
                        } else {
                            "panic".into()
                        };
                        let loc = info
                            .location()
                            .map(|l| format!("{}:{}", l.file(), l.line()))
                            .unwrap_or_default();
                        run.panic_note = Some(format!("panicked at {loc}: {msg}"));
                    }
                    true
                }
                _ => info.payload().is::<Abort>(),
            },
            Err(_) => false,
        });
        if !quiet {
            default(info);
        }
    }));
}

pub type Scenario = fn();

/// Executes one run. Returns the finished run record.
pub fn execute(f: Scenario, seed: Option<u64>, tape: Option<&[u64]>, tracing: bool) -> Run {
    let src = match (seed, tape) {
        (_, Some(t)) => Source::Tape(t.to_vec(), 0),
        (Some(s), None) => Source::Rng(s),
        _ => unreachable!(),
    };
    RUN.with(|r| *r.borrow_mut() = Some(Run::new(src, tracing)));
    let res = catch_unwind(AssertUnwindSafe(f));
    let run = RUN.with(|r| r.borrow_mut().take()).expect("run");
    if let Err(p) = res {
        if !p.is::<Abort>() {
            resume_unwind(p); // a bug in the harness itself
        }
    }
    run
}
