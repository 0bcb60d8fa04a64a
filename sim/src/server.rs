//! Scenarios for the server library (C15 - C21): the real `TpmContext` on a simulated platform.
//!
//! The platform (entropy source, random generator, request and response buffers) is simulated and
//! fails when told to; every byte it hands out is unique, so the origin of every response byte can
//! be told.

use crate::engine::*;
use crate::ops::seldom_long;
use crate::runner::Prop;
use crate::{ensure, tr};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use tpm2_impl::TpmContext;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource, drbg_helpers};
use tpm2_impl::platform::{ReadOutOfBounds, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds};

// ------------------------------------------------------------------ platform

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Entropy(Vec<u8>),
    Instantiate { entropy: Vec<u8>, nonce: Vec<u8>, ok: bool },
    Reseed { entropy: Vec<u8>, ok: bool },
    /// `overdue`: the generator required reseeding at that time
    Generate { out: Vec<u8>, ok: bool, overdue: bool },
}

#[derive(Clone, Debug)]
pub struct Plat {
    pub seed: u64,
    entropy_pos: u64,
    gen_pos: u64,
    pub log: Vec<Ev>,
    asked: u64,
    /// fallible generator calls made so far, and which of them fail
    calls: u64,
    pub fail: BTreeSet<u64>,
    pub interval: u64,
    since: u64,
    /// a generator that requires reseeding refuses to generate
    pub enforce: bool,
    pub limit: usize,
}
impl Plat {
    /// One run makes at most a few hundred calls; more is an endless loop.
    fn bound(&self) {
        if self.log.len() > 100_000 || self.asked > 1_000_000 {
            std::panic::panic_any(SimHang("no end of generator or entropy calls".into()));
        }
    }
    pub fn new(seed: u64) -> Plat {
        Plat {
            seed,
            entropy_pos: 0,
            gen_pos: 0,
            log: vec![],
            asked: 0,
            calls: 0,
            fail: BTreeSet::new(),
            interval: u64::MAX,
            since: 0,
            enforce: false,
            limit: usize::MAX,
        }
    }
    fn stream(seed: u64, pos: &mut u64, dest: &mut [u8]) {
        for d in dest {
            let mut s = seed ^ (*pos >> 3).wrapping_mul(0xA24B_AED4_963E_E407);
            *d = (splitmix(&mut s) >> (8 * (*pos & 7))) as u8;
            *pos += 1;
        }
    }
    fn faulty(&mut self) -> bool {
        let n = self.calls;
        self.calls += 1;
        self.fail.contains(&n)
    }
}

thread_local! {
    static PLATS: RefCell<Vec<Plat>> = const { RefCell::new(Vec::new()) };
    static CURRENT: Cell<usize> = const { Cell::new(0) };
}
pub fn plats_reset(p: Vec<Plat>) {
    PLATS.with(|x| *x.borrow_mut() = p);
    CURRENT.with(|c| c.set(0));
}
pub fn plat<R>(i: usize, f: impl FnOnce(&mut Plat) -> R) -> R {
    PLATS.with(|p| f(&mut p.borrow_mut()[i]))
}
fn current() -> usize {
    CURRENT.with(|c| c.get())
}

pub struct Arr<const N: usize>([u8; N]);
impl<const N: usize> Default for Arr<N> {
    fn default() -> Self {
        Arr([0; N])
    }
}
impl<const N: usize> AsMut<[u8]> for Arr<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

pub struct SimEntropy(usize);
impl EntropySource for SimEntropy {
    fn instantiate() -> Self {
        SimEntropy(current())
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        plat(self.0, |p| {
            p.bound();
            let s = p.seed ^ 0x5555_0000;
            Plat::stream(s, &mut p.entropy_pos, dest);
            p.log.push(Ev::Entropy(dest.to_vec()));
        })
    }
}

pub struct SimDrbg<const E: usize, const N: usize>(usize);
impl<const E: usize, const N: usize> SimDrbg<E, N> {
    fn generate(&mut self, dest: &mut [u8]) -> Result<(), DrbgError> {
        plat(self.0, |p| {
            p.bound();
            let overdue = p.since >= p.interval;
            let refuse = (overdue && p.enforce) || dest.len() > p.limit;
            if p.faulty() || refuse {
                // a failing generator may leave anything behind
                let n = dest.len() / 2;
                let s = p.seed ^ 0x7777_0000_0000;
                Plat::stream(s, &mut p.gen_pos, &mut dest[..n]);
                p.log.push(Ev::Generate { out: vec![], ok: false, overdue });
                return Err(DrbgError);
            }
            p.since += 1;
            let s = p.seed ^ 0xAAAA_0000_0000;
            Plat::stream(s, &mut p.gen_pos, dest);
            p.log.push(Ev::Generate { out: dest.to_vec(), ok: true, overdue });
            Ok(())
        })
    }
}
impl<const E: usize, const N: usize> Drbg for SimDrbg<E, N> {
    type Entropy = Arr<E>;
    type Nonce = Arr<N>;
    fn instantiate(e: &Arr<E>, n: &Arr<N>, _: &[u8]) -> Result<Self, DrbgError> {
        let i = current();
        plat(i, |p| {
            let ok = !p.faulty();
            p.since = 0;
            p.log.push(Ev::Instantiate { entropy: e.0.to_vec(), nonce: n.0.to_vec(), ok });
            if ok { Ok(SimDrbg(i)) } else { Err(DrbgError) }
        })
    }
    fn reseed(&mut self, e: &Arr<E>, _: &[u8]) -> Result<(), DrbgError> {
        plat(self.0, |p| {
            p.bound();
            let ok = !p.faulty();
            if ok {
                p.since = 0;
            }
            p.log.push(Ev::Reseed { entropy: e.0.to_vec(), ok });
            if ok { Ok(()) } else { Err(DrbgError) }
        })
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        let mut b = [0; 4];
        self.generate(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        let mut b = [0; 8];
        self.generate(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, _: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        self.generate(dest)
    }
    fn requires_reseeding(&mut self) -> bool {
        plat(self.0, |p| {
            p.asked += 1;
            p.bound();
            p.since >= p.interval
        })
    }
}

/// A platform buffer (request or response) that can refuse accesses.
pub struct Mem {
    pub data: Vec<u8>,
    pub written: Vec<bool>,
    pub fail_reads: BTreeSet<u64>,
    pub fail_writes: BTreeSet<u64>,
    reads: Cell<u64>,
    writes: u64,
    pub refused: Cell<u64>,
}
impl Mem {
    pub fn new(data: Vec<u8>) -> Mem {
        let n = data.len();
        Mem { data, written: vec![false; n], fail_reads: BTreeSet::new(), fail_writes: BTreeSet::new(), reads: Cell::new(0), writes: 0, refused: Cell::new(0) }
    }
}
impl TpmReadBuffer for Mem {
    fn len(&self) -> usize {
        self.data.len()
    }
    fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        let n = self.reads.get();
        self.reads.set(n + 1);
        if n > 1_000_000 {
            std::panic::panic_any(SimHang("no end of buffer reads".into()));
        }
        if self.fail_reads.contains(&n) {
            self.refused.set(self.refused.get() + 1);
            return Err(ReadOutOfBounds);
        }
        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
        out.copy_from_slice(self.data.get(offset..end).ok_or(ReadOutOfBounds)?);
        Ok(())
    }
}
impl TpmWriteBuffer for Mem {
    fn write(&mut self, at: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
        let src = data.to_vec();
        self.write_callback(at, data.len(), |d| d.copy_from_slice(&src))
    }
    fn write_callback(&mut self, at: usize, size: usize, f: impl FnOnce(&mut [u8])) -> Result<(), WriteOutOfBounds> {
        let n = self.writes;
        self.writes += 1;
        if n > 1_000_000 {
            std::panic::panic_any(SimHang("no end of buffer writes".into()));
        }
        if self.fail_writes.contains(&n) {
            self.refused.set(self.refused.get() + 1);
            return Err(WriteOutOfBounds);
        }
        let end = at.checked_add(size).ok_or(WriteOutOfBounds)?;
        f(self.data.get_mut(at..end).ok_or(WriteOutOfBounds)?);
        self.written[at..end].fill(true);
        Ok(())
    }
}

pub struct OnSlice<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> TpmContextDeps for OnSlice<E, N> {
    type Drbg = SimDrbg<E, N>;
    type EntropySource = SimEntropy;
    type Request = [u8];
    type Response = [u8];
}
pub struct OnMem<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> TpmContextDeps for OnMem<E, N> {
    type Drbg = SimDrbg<E, N>;
    type EntropySource = SimEntropy;
    type Request = Mem;
    type Response = Mem;
}

pub trait Srv {
    fn separate(&mut self, req: &Mem, resp: &mut Mem) -> usize;
    fn in_place(&mut self, buf: &mut Mem, n: usize) -> usize;
}
impl<const E: usize, const N: usize> Srv for TpmContext<OnSlice<E, N>> {
    fn separate(&mut self, req: &Mem, resp: &mut Mem) -> usize {
        self.execute_command_separate(&req.data, &mut resp.data)
    }
    fn in_place(&mut self, buf: &mut Mem, n: usize) -> usize {
        self.execute_command_in_place(&mut buf.data, n)
    }
}
impl<const E: usize, const N: usize> Srv for TpmContext<OnMem<E, N>> {
    fn separate(&mut self, req: &Mem, resp: &mut Mem) -> usize {
        self.execute_command_separate(req, resp)
    }
    fn in_place(&mut self, buf: &mut Mem, n: usize) -> usize {
        self.execute_command_in_place(buf, n)
    }
}
pub const KINDS: u64 = 14;
fn make<D: TpmContextDeps>() -> Result<Box<dyn Srv>, String>
where
    TpmContext<D>: Srv + 'static,
{
    TpmContext::<D>::new().map(|c| Box::new(c) as Box<dyn Srv>).map_err(|e| format!("{e:?}: {e}"))
}
/// Starts a server on platform `i`. Kinds 0-6 use plain slices, 7-13 simulated buffers.
pub fn start(kind: u64, i: usize) -> Option<Result<Box<dyn Srv>, String>> {
    CURRENT.with(|c| c.set(i));
    sut("TpmContext::new", || match kind {
        0 => make::<OnSlice<48, 16>>(),
        1 => make::<OnSlice<1, 0>>(),
        2 => make::<OnSlice<32, 64>>(),
        3 => make::<OnSlice<64, 1>>(),
        4 => make::<OnSlice<32, 16>>(),
        5 => make::<OnSlice<20, 20>>(),
        6 => make::<OnSlice<300, 129>>(),
        7 => make::<OnMem<48, 16>>(),
        8 => make::<OnMem<1, 0>>(),
        9 => make::<OnMem<32, 64>>(),
        10 => make::<OnMem<64, 1>>(),
        11 => make::<OnMem<32, 16>>(),
        12 => make::<OnMem<20, 20>>(),
        _ => make::<OnMem<300, 129>>(),
    })
}

// ------------------------------------------------------------------ requests and the model

pub struct Case {
    pub req: Vec<u8>,
    pub cap: usize,
}
fn getrandom(n: u16) -> Vec<u8> {
    let mut r = vec![0x80, 0x01, 0, 0, 0, 12, 0, 0, 0x01, 0x7b];
    r.extend_from_slice(&n.to_be_bytes());
    r
}
fn count() -> u16 {
    match draw(8) {
        0 => draw(3) as u16,
        1..=4 => draw(65) as u16,
        5 => draw(600) as u16,
        6 => draw(5000) as u16,
        _ => {
            if chance(1, 8) {
                int(16) as u16
            } else {
                draw(64) as u16
            }
        }
    }
}
fn gen_good() -> Case {
    let n = count();
    let need = 10 + n as usize;
    let cap = match draw(4) {
        0 => need,
        1 => need + 1 + draw(30) as usize,
        _ => need.max(256),
    };
    Case { req: getrandom(n), cap }
}
fn gen_bad() -> Case {
    let n = count();
    let mut req = getrandom(n);
    let mut cap = 10 + n as usize + draw(300) as usize;
    match draw(9) {
        0 => {
            fault("size_field_wrong");
            let v = match draw(4) {
                0 => 12 + 1 + draw(8) as u32,
                1 => draw(12) as u32,
                2 => pick(&[0x0c00_0000, 0x0001_000c, 0x8000_000c, 0xffff_ffff, 0x0000_0c00]),
                _ => int(32) as u32,
            };
            req[2..6].copy_from_slice(&v.to_be_bytes());
        }
        1 => {
            fault("request_truncated");
            req.truncate(draw(12) as usize);
            if chance(1, 2) && req.len() >= 6 {
                let l = req.len() as u32;
                req[2..6].copy_from_slice(&l.to_be_bytes());
            }
        }
        2 => {
            fault("bad_tag");
            let t = pick(&[0x8002u16, 0, 0x8000, 0x00c1, 0x00c4, 0x0180, 0x8003, 0x0001, 0x8101, 0xffff]);
            req[..2].copy_from_slice(&t.to_be_bytes());
            if t == 0x8002 && chance(1, 2) {
                // a real authorization area: one password session
                req.truncate(10);
                req.extend_from_slice(&[0, 0, 0, 9, 0x40, 0, 0, 9, 0, 0, 1, 0, 0]);
                req.extend_from_slice(&n.to_be_bytes());
                let l = req.len() as u32;
                req[2..6].copy_from_slice(&l.to_be_bytes());
            }
        }
        3 => {
            fault("unsupported_command");
            let c = match draw(3) {
                0 => pick(&[0x17au32, 0x17c, 0x144, 0x17e, 0x7b, 0x1017b, 0x8000_017b, 0x0200_017b, 0x7b01_0000, 0, 0xffff_ffff, 0x2000_017b, 0x117b, 0x057b]),
                1 => 0x11f + draw(0x80) as u32,
                _ => int(32) as u32,
            };
            let c = if c == 0x17b { 0x17d } else { c };
            req[6..10].copy_from_slice(&c.to_be_bytes());
        }
        4 => {
            fault("response_does_not_fit");
            let need = 10 + n as usize;
            cap = match draw(3) {
                0 => need - 1 - draw(n.max(1) as u64) as usize,
                1 => draw(need as u64) as usize,
                _ => need - 1,
            };
        }
        5 => {
            fault("garbage_request");
            let k = match draw(3) {
                0 => draw(10),
                1 => 10 + draw(10),
                _ => draw(100),
            } as usize;
            req = bytes(k);
            if chance(1, 2) && k >= 6 {
                req[..6].copy_from_slice(&[0x80, 1, 0, 0, 0, k as u8]);
            }
        }
        6 => {
            fault("request_extended");
            if chance(1, 12) {
                // far beyond anything a TPM takes
                probe("huge_request");
                let k = match draw(4) {
                    0 => 4080 + draw(40) as usize,
                    1 => 65530 + draw(30) as usize,
                    2 => 0x1_000c,
                    _ => draw(9000) as usize + 12,
                };
                req.resize(k, draw(256) as u8);
                cap = cap.max(k + draw(2) as usize);
            } else {
                let k = 1 + draw(20) as usize;
                req.extend(bytes(k));
            }
            match draw(4) {
                0 => {}
                1 => {
                    let l = req.len() as u16 as u32;
                    req[2..6].copy_from_slice(&l.to_be_bytes());
                }
                _ => {
                    let l = req.len() as u32;
                    req[2..6].copy_from_slice(&l.to_be_bytes());
                }
            }
        }
        7 => {
            fault("tiny_response_buffer");
            cap = draw(14) as usize;
        }
        _ => {
            fault("empty_request");
            req.clear();
        }
    }
    Case { req, cap }
}

/// What the server has to do with a request.
#[derive(Debug, Clone, PartialEq)]
pub enum Exp {
    /// one of these codes, without touching the generator
    Refuse(Vec<u32>),
    Random(usize),
    /// extra bytes behind the parameters: may be executed or refused
    Either(usize),
}
pub fn expect(req: &[u8], cap: usize) -> Exp {
    let be = |a: usize, b: usize| req.get(a..b).map(|x| x.iter().fold(0u64, |v, y| v << 8 | u64::from(*y)));
    let mut codes = Vec::new();
    if be(0, 2).is_some_and(|t| t != 0x8001) {
        codes.push(0x1e);
    }
    if req.len() < 10 || be(2, 6) != Some(req.len() as u64) {
        codes.push(0x142);
    }
    let supported = be(6, 10) == Some(0x17b);
    if be(6, 10).is_some() && !supported {
        codes.push(0x143);
    }
    if !codes.is_empty() && !(codes == [0x1e] && supported) {
        return Exp::Refuse(codes);
    }
    let Some(n) = be(10, 12) else {
        codes.push(0x142);
        return Exp::Refuse(codes);
    };
    let n = n as usize;
    if 10 + n > cap {
        codes.push(0x904);
    }
    if !codes.is_empty() {
        return Exp::Refuse(codes);
    }
    if req.len() > 12 { Exp::Either(n) } else { Exp::Random(n) }
}

#[derive(Debug)]
pub struct Res {
    pub count: usize,
    /// the whole buffer afterwards
    pub after: Vec<u8>,
    pub before: Vec<u8>,
    pub written: Vec<bool>,
    pub events: Vec<Ev>,
    pub refused: u64,
}
impl Res {
    pub fn rc(&self) -> Option<u32> {
        (self.count >= 10 && self.count <= self.after.len()).then(|| u32::from_be_bytes(self.after[6..10].try_into().expect("four")))
    }
    pub fn body(&self) -> &[u8] {
        self.after.get(10..self.count).unwrap_or(&[])
    }
    fn show(&self) -> String {
        format!("{} bytes {}", self.count, hex(&self.after[..self.count.min(self.after.len()).min(64)]))
    }
}
#[derive(Clone, Default)]
pub struct BufFaults {
    pub reads: BTreeSet<u64>,
    pub writes: BTreeSet<u64>,
}
fn stale(cap: usize) -> Vec<u8> {
    match draw(3) {
        0 => vec![0; cap],
        1 => bytes(cap),
        _ => {
            // an earlier success response
            let mut v = vec![0x80, 0x01, 0, 0, 0, 0x20, 0, 0, 0, 0];
            v.resize(cap.max(10), 0x33);
            v.truncate(cap);
            v
        }
    }
}
/// Executes one request. In place, `cap` is the buffer's size and the request is cut to it.
pub fn exec(s: &mut dyn Srv, i: usize, c: &Case, in_place: bool, bf: &BufFaults) -> Option<Res> {
    op_done();
    let from = plat(i, |p| p.log.len());
    note(&c.req[..c.req.len().min(64)]);
    note(&c.cap.to_be_bytes());
    tr!("{} request {} with {} bytes for the response", if in_place { "in-place" } else { "separate" }, hex(&c.req), c.cap);
    let res = if in_place {
        let mut data = stale(c.cap);
        let n = c.req.len().min(c.cap);
        data[..n].copy_from_slice(&c.req[..n]);
        let before = data.clone();
        let mut m = Mem::new(data);
        m.fail_reads = bf.reads.clone();
        m.fail_writes = bf.writes.clone();
        let size = if c.req.len() > c.cap { c.req.len() } else if n == c.cap { n + draw(20) as usize } else { n };
        let count = sut("execute_command_in_place", || s.in_place(&mut m, size))?;
        Res { count, after: m.data, before, written: m.written, events: vec![], refused: m.refused.get() }
    } else {
        let mut req = Mem::new(c.req.clone());
        req.fail_reads = bf.reads.clone();
        let mut m = Mem::new(stale(c.cap));
        m.fail_writes = bf.writes.clone();
        let before = m.data.clone();
        let count = sut("execute_command_separate", || s.separate(&req, &mut m))?;
        ensure!(req.data == c.req, "request-changed", "the request buffer was changed");
        Res { count, after: m.data, before, written: m.written, events: vec![], refused: m.refused.get() + req.refused.get() }
    };
    let res = Res { events: plat(i, |p| p.log[from..].to_vec()), ..res };
    match res.rc() {
        Some(0) => probe("success_response"),
        Some(_) => probe("error_response"),
        None => probe("no_response"),
    }
    tr!("  -> {}; platform: {}", res.show(), show_events(&res.events));
    Some(res)
}
fn show_events(e: &[Ev]) -> String {
    e.iter()
        .map(|e| match e {
            Ev::Entropy(b) => format!("entropy({})", b.len()),
            Ev::Instantiate { ok, .. } => format!("instantiate(ok={ok})"),
            Ev::Reseed { entropy, ok } => format!("reseed({}, ok={ok})", entropy.len()),
            Ev::Generate { out, ok, overdue } => format!("generate({}, ok={ok}{})", out.len(), if *overdue { ", overdue" } else { "" }),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// The complete-response rule of C15.
fn well_formed(r: &Res, cap: usize) {
    ensure!(r.count <= cap, "overrun", "returned count {} exceeds the capacity {cap}", r.count);
    if failed() {
        return;
    }
    if r.count == 0 {
        ensure!(cap < 10 || r.refused > 0, "no-response", "returned nothing although {cap} bytes are available");
        return;
    }
    let b = &r.after[..r.count];
    if b.len() < 10 {
        fail("malformed-response", format!("response {} is shorter than a header", hex(b)));
        return;
    }
    ensure!(b[..2] == [0x80, 0x01], "malformed-response", "response {} has tag {:02x}{:02x}", hex(b), b[0], b[1]);
    let size = u32::from_be_bytes(b[2..6].try_into().expect("four"));
    ensure!(size as usize == r.count, "malformed-response", "response {} of {} bytes has size field {size}", hex(b), r.count);
    let rc = r.rc().expect("ten bytes");
    ensure!(rc == 0 || r.count == 10, "malformed-response", "error response {} has {} bytes", hex(b), r.count);
}

/// A success response to GetRandom(n) that carries this command's generator output (C16).
fn check_random(r: &Res, n: usize) {
    ensure!(r.count == 10 + n, "wrong-length", "{n} random bytes were requested, the response has {} bytes", r.count);
    if failed() {
        return;
    }
    let body = r.body();
    let mut pos = 0;
    let mut fresh: Vec<u8> = Vec::new();
    for e in &r.events {
        match e {
            Ev::Entropy(b) => fresh.extend_from_slice(b),
            Ev::Reseed { entropy, .. } => {
                check_fresh(&mut fresh, &[entropy]);
            }
            Ev::Generate { ok: false, .. } => {}
            Ev::Generate { out, overdue, .. } => {
                ensure!(!overdue, "overdue", "random bytes were generated although the generator requires reseeding");
                let k = out.len().min(n - pos);
                ensure!(body[pos..pos + k] == out[..k], "not-generated", "response bytes {}.. are not what the generator produced: {}", pos, hex(&body[pos..pos + k]));
                pos += k;
            }
            Ev::Instantiate { .. } => {}
        }
        if failed() {
            return;
        }
    }
    ensure!(pos == n, "not-generated", "only {pos} of {n} response bytes come from the generator");
}
/// The seeds must be exactly the bytes the entropy source has just produced, each used once.
fn check_fresh(fresh: &mut Vec<u8>, seeds: &[&Vec<u8>]) {
    for s in seeds {
        if s.is_empty() {
            continue;
        }
        match fresh.windows(s.len()).position(|w| w == &s[..]) {
            Some(at) => {
                fresh.drain(at..at + s.len());
            }
            None => fail("stale-entropy", format!("the generator was seeded with {} which is not fresh output of the entropy source ({})", hex(s), hex(fresh))),
        }
    }
}
fn untouched(r: &Res) {
    ensure!(r.events.is_empty(), "side-effect", "a refused command used the platform: {}", show_events(&r.events));
}

fn gen_case() -> Case {
    if chance(1, 2) { gen_good() } else { gen_bad() }
}
/// The request the server sees.
fn visible(c: &Case, in_place: bool) -> &[u8] {
    if in_place { &c.req[..c.req.len().min(c.cap)] } else { &c.req }
}
fn setup(n: usize) -> Option<(Box<dyn Srv>, u64)> {
    let seed = draw(1 << 32) << 8;
    plats_reset((0..n).map(|_| Plat::new(seed)).collect());
    let kind = draw(KINDS);
    match start(kind, 0)? {
        Ok(s) => Some((s, kind)),
        Err(e) => {
            fail("no-server", format!("the server could not be created: {e}"));
            None
        }
    }
}

// ------------------------------------------------------------------ C15

fn c15() {
    let Some((mut s, _)) = setup(1) else { return };
    let steps = seldom_long(6);
    if chance(1, 3) {
        // the generator fails sometimes
        let f: BTreeSet<u64> = (0..draw(4)).map(|_| 1 + draw(8.max(2 * steps))).collect();
        let iv = range(1, 4);
        plat(0, |p| {
            p.fail = f;
            p.interval = iv;
        });
    }
    for _ in 0..steps {
        let c = gen_case();
        let ip = chance(1, 2);
        let Some(r) = exec(&mut *s, 0, &c, ip, &BufFaults::default()) else { return };
        well_formed(&r, c.cap);
        if failed() {
            return;
        }
        let drbg_failed = r.events.iter().any(|e| matches!(e, Ev::Generate { ok: false, .. } | Ev::Reseed { ok: false, .. }));
        if drbg_failed {
            fault("generator_fails");
        }
        if r.rc() != Some(0) && !drbg_failed {
            ensure!(r.after[r.count..] == r.before[r.count..], "overrun", "a refused command changed bytes beyond its {} byte response", r.count);
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C16

fn c16() {
    let Some((mut s, kind)) = setup(1) else { return };
    let mut fresh: Vec<u8> = vec![];
    for e in plat(0, |p| p.log.clone()) {
        match e {
            Ev::Entropy(b) => fresh.extend_from_slice(&b),
            Ev::Instantiate { entropy, nonce, .. } => check_fresh(&mut fresh, &[&entropy, &nonce]),
            _ => {}
        }
    }
    let n = plat(0, |p| p.log.iter().filter(|e| matches!(e, Ev::Instantiate { .. })).count());
    ensure!(n > 0, "not-seeded", "the generator was never instantiated (kind {kind})");
    if failed() {
        return;
    }
    let steps = seldom_long(8);
    let iv = if steps > 20 { pick(&[1u64, 2, 7, 50, 200, u64::MAX]) } else { pick(&[1u64, 1, 2, 3, u64::MAX]) };
    let enforce = chance(1, 2);
    plat(0, |p| {
        p.interval = iv;
        p.enforce = enforce;
    });
    for _ in 0..steps {
        let c = if chance(5, 6) { gen_good() } else { gen_bad() };
        let ip = chance(1, 2);
        let due = plat(0, |p| p.since >= p.interval);
        let Some(r) = exec(&mut *s, 0, &c, ip, &BufFaults::default()) else { return };
        if let Exp::Random(n) = expect(visible(&c, ip), c.cap) {
            nontrivial();
            if due {
                probe("reseeding_due");
            }
            match r.rc() {
                Some(0) => check_random(&r, n),
                rc => fail("refused-executable", format!("GetRandom({n}) with room for {} bytes was answered with {rc:x?} ({})", c.cap, show_events(&r.events))),
            }
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C17

fn c17() {
    let Some((mut s, _)) = setup(1) else { return };
    let iv = pick(&[1u64, 2, u64::MAX]);
    plat(0, |p| p.interval = iv);
    for _ in 0..seldom_long(7) {
        let c = if chance(1, 4) { gen_good() } else { gen_bad() };
        let ip = chance(1, 2);
        let Some(r) = exec(&mut *s, 0, &c, ip, &BufFaults::default()) else { return };
        match expect(visible(&c, ip), c.cap) {
            Exp::Refuse(codes) => {
                nontrivial();
                untouched(&r);
                match r.rc() {
                    Some(rc) => ensure!(codes.contains(&rc), "wrong-code", "request {} ({} bytes for the response) was answered with {rc:#x} instead of {codes:x?}", hex(visible(&c, ip)), c.cap),
                    None => ensure!(r.count == 0 && c.cap < 10, "wrong-code", "request {} got {}", hex(visible(&c, ip)), r.show()),
                }
            }
            Exp::Random(n) => match r.rc() {
                Some(0) => check_random(&r, n),
                rc => fail("refused-executable", format!("GetRandom({n}) was answered with {rc:x?}")),
            },
            Exp::Either(n) => match r.rc() {
                Some(0) => check_random(&r, n),
                Some(_) => untouched(&r),
                None => fail("no-response", "a request with extra bytes got no response"),
            },
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C18

fn c18() {
    let seed = draw(1 << 32) << 8;
    let mut p = Plat::new(seed);
    p.interval = pick(&[1, 2, u64::MAX]);
    p.enforce = chance(1, 2);
    if chance(1, 8) {
        p.limit = draw(64) as usize;
    }
    let at_start = chance(1, 6);
    let steps = 1 + seldom_long(8);
    if at_start {
        p.fail.insert(0);
    } else {
        for _ in 0..range(1, 3) {
            p.fail.insert(1 + draw(10.max(2 * steps)));
        }
    }
    plats_reset(vec![p]);
    let kind = draw(KINDS);
    let Some(started) = start(kind, 0) else { return };
    let any_failed = plat(0, |p| p.log.iter().any(|e| matches!(e, Ev::Instantiate { ok: false, .. })));
    if any_failed {
        fault("instantiate_fails");
        op_done();
    }
    let mut s = match started {
        Err(e) => {
            ensure!(any_failed, "no-server", "the server could not be created: {e}");
            return;
        }
        Ok(s) => {
            ensure!(!any_failed, "fabricated-server", "the server was created although its generator failed to instantiate");
            s
        }
    };
    let mut broken = false;
    for _ in 0..steps {
        let c = if chance(5, 6) { gen_good() } else { gen_bad() };
        let ip = chance(1, 2);
        let Some(r) = exec(&mut *s, 0, &c, ip, &BufFaults::default()) else { return };
        well_formed(&r, c.cap);
        if failed() {
            return;
        }
        let reseed = r.events.iter().any(|e| matches!(e, Ev::Reseed { ok: false, .. }));
        let generate = r.events.iter().any(|e| matches!(e, Ev::Generate { ok: false, .. }));
        if reseed {
            fault("reseed_fails");
        }
        if generate {
            fault("generate_fails");
        }
        let exp = expect(visible(&c, ip), c.cap);
        match (&exp, r.rc()) {
            (Exp::Random(n) | Exp::Either(n), Some(0)) => {
                ensure!(!reseed, "fault-hidden", "reseeding failed but the command succeeded: {}", show_events(&r.events));
                ensure!(!generate, "fault-hidden", "generating failed but the command succeeded: {}", show_events(&r.events));
                check_random(&r, *n);
            }
            (Exp::Random(_), Some(rc)) => {
                if reseed || generate {
                    ensure!(rc == 0x101, "wrong-code", "the generator failed and the command was answered with {rc:#x}");
                    broken = true;
                } else if !broken {
                    fail("refused-executable", format!("GetRandom was answered with {rc:#x} although nothing failed"));
                }
            }
            (Exp::Refuse(_), Some(0)) => fail("accepted-malformed", format!("request {} succeeded", hex(&c.req))),
            _ => {}
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C19

fn c19() {
    let Some((mut a, kind)) = setup(2) else { return };
    let Some(Ok(mut b)) = start(kind, 1) else { return };
    let iv = pick(&[1u64, 2, u64::MAX]);
    let steps = seldom_long(7);
    let f: BTreeSet<u64> = if chance(1, 4) { (0..range(1, 3)).map(|_| 1 + draw(8.max(2 * steps))).collect() } else { BTreeSet::new() };
    for i in 0..2 {
        plat(i, |p| {
            p.interval = iv;
            p.fail = f.clone();
        });
    }
    for _ in 0..steps {
        let mut c = gen_case();
        if chance(2, 3) {
            c.cap = c.cap.max(c.req.len());
        }
        let Some(x) = exec(&mut *a, 0, &c, true, &BufFaults::default()) else { return };
        let d = Case { req: visible(&c, true).to_vec(), cap: c.cap };
        let Some(y) = exec(&mut *b, 1, &d, false, &BufFaults::default()) else { return };
        nontrivial();
        if x.events.iter().any(|e| matches!(e, Ev::Generate { ok: false, .. } | Ev::Reseed { ok: false, .. })) {
            fault("generator_fails");
        }
        ensure!(x.count == y.count, "differs", "request {}: in place {}, separate {}", hex(&d.req), x.show(), y.show());
        if x.count <= c.cap && x.count == y.count {
            ensure!(x.after[..x.count] == y.after[..x.count], "differs", "request {}: in place {}, separate {}", hex(&d.req), x.show(), y.show());
        }
        ensure!(x.events == y.events, "differs", "request {}: in place uses the platform as {}, separate as {}", hex(&d.req), show_events(&x.events), show_events(&y.events));
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C20

/// A plain byte slice as platform buffer, against a vector: an access is refused exactly when it
/// does not fit, and a refused access changes nothing.
fn slices() {
    let n = match draw(3) {
        0 => draw(12),
        1 => draw(40),
        _ => draw(300),
    } as usize;
    let mut model = bytes(n);
    let mut real = model.clone();
    let buf: &mut [u8] = &mut real;
    let mut r: Vec<u8> = vec![];
    for _ in 0..range(1, 8) {
        op_done();
        nontrivial();
        let at = match draw(4) {
            0 => n + draw(6) as usize,
            1 => n.saturating_sub(draw(6) as usize),
            _ => draw(n as u64 + 1) as usize,
        };
        let k = match draw(4) {
            0 => draw(5) as usize,
            1 => n.saturating_sub(at),
            2 => n.saturating_sub(at) + 1,
            _ => draw(n as u64 + 4) as usize,
        };
        let k = if at > n { k.max(1) } else { k }; // nothing at all beyond the end: undecided
        let fits = at + k <= n;
        if !fits {
            fault("access_does_not_fit");
        }
        let op = draw(6);
        note(&[op as u8, fits as u8, (at == n) as u8, (k == 0) as u8]);
        tr!("slice of {n} bytes: operation {op} at {at}, {k} bytes");
        let data = bytes(k);
        let mut called = 0usize;
        let ok = sut("slice buffer", || match op {
            0 => TpmReadBuffer::len(&*buf) == n && TpmReadBuffer::is_empty(&*buf) == (n == 0),
            1 => {
                r = vec![0x5a; k];
                TpmReadBuffer::read_into(&*buf, at, &mut r).is_ok()
            }
            2 => {
                let v = TpmReadBuffer::read_be_u16(&*buf, at);
                r = v.map(|v| v.to_be_bytes().to_vec()).unwrap_or_default();
                v.is_ok()
            }
            3 => {
                let v = TpmReadBuffer::read_be_u32(&*buf, at);
                r = v.map(|v| v.to_be_bytes().to_vec()).unwrap_or_default();
                v.is_ok()
            }
            4 => TpmWriteBuffer::write(buf, at, &data).is_ok(),
            _ => TpmWriteBuffer::write_callback(buf, at, k, |d| {
                called += 1;
                r = d.to_vec();
                if d.len() == data.len() {
                    d.copy_from_slice(&data);
                }
            })
            .is_ok(),
        });
        let Some(ok) = ok else { return };
        let want = match op {
            0 => true,
            2 => at + 2 <= n,
            3 => at + 4 <= n,
            _ => fits,
        };
        ensure!(ok == want, "slice-bounds", "a plain slice of {n} bytes as buffer: operation {op} at {at} with {k} bytes gave {ok}");
        if failed() {
            return;
        }
        if ok {
            match op {
                1 => ensure!(r == model[at..at + k], "slice-data", "reading {k} bytes at {at} gave other bytes"),
                2 => ensure!(r == model[at..at + 2], "slice-data", "read_be_u16 at {at} gave {}", hex(&r)),
                3 => ensure!(r == model[at..at + 4], "slice-data", "read_be_u32 at {at} gave {}", hex(&r)),
                4 => model[at..at + k].copy_from_slice(&data),
                5 => {
                    ensure!(called == 1 && r == model[at..at + k], "slice-data", "write_callback at {at} called back {called} times with other bytes than the {k} wanted");
                    model[at..at + k].copy_from_slice(&data);
                }
                _ => {}
            }
        } else if op == 5 {
            ensure!(called == 0, "slice-bounds", "a refused write_callback called back");
        }
        ensure!(buf[..] == model[..], "slice-data", "operation {op} at {at} with {k} bytes left {} instead of {}", hex(buf), hex(&model));
        if failed() {
            return;
        }
    }
}
fn c20() {
    if chance(1, 8) {
        slices();
        return;
    }
    let seed = draw(1 << 32) << 8;
    plats_reset(vec![Plat::new(seed)]);
    // mostly buffers that can refuse, sometimes the library's own (plain slices)
    let own = chance(1, 8);
    let kind = if own { 0 } else { KINDS / 2 } + draw(KINDS / 2);
    let Some(Ok(mut s)) = start(kind, 0) else { return };
    for _ in 0..seldom_long(6) {
        let c = gen_case();
        let ip = chance(1, 2);
        let mut bf = BufFaults::default();
        if !own && chance(2, 3) {
            match draw(4) {
                0 => {
                    bf.writes.insert(draw(6));
                }
                1 => {
                    let k = draw(6);
                    bf.writes = (k..k + 1 + draw(8)).collect();
                }
                2 => {
                    bf.reads.insert(draw(6));
                }
                _ => {
                    bf.writes = (0..draw(4)).map(|_| draw(8)).collect();
                    bf.reads = (0..draw(2)).map(|_| draw(8)).collect();
                }
            }
        }
        let Some(r) = exec(&mut *s, 0, &c, ip, &bf) else { return };
        nontrivial();
        if r.refused > 0 {
            fault(if bf.reads.is_empty() { "write_refused" } else { "read_or_write_refused" });
        }
        well_formed(&r, c.cap);
        if failed() {
            return;
        }
        ensure!(own || r.written[..r.count].iter().all(|w| *w), "not-stored", "{} bytes were reported but not all of them were stored", r.count);
        let exp = expect(visible(&c, ip), c.cap);
        match (&exp, r.rc()) {
            (Exp::Random(n) | Exp::Either(n), Some(0)) => check_random(&r, *n),
            (Exp::Refuse(codes), Some(0)) => fail("accepted-malformed", format!("request {} succeeded instead of {codes:x?}", hex(visible(&c, ip)))),
            (Exp::Random(n), rc) if r.refused == 0 => fail("refused-executable", format!("GetRandom({n}) was answered with {rc:x?} although the buffers worked")),
            (Exp::Refuse(codes), Some(rc)) if r.refused == 0 => {
                ensure!(codes.contains(&rc), "wrong-code", "request {} was answered with {rc:#x} instead of {codes:x?}", hex(visible(&c, ip)))
            }
            _ => {}
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, PartialEq)]
struct Call {
    out: Vec<u8>,
    add: Vec<u8>,
    ok: bool,
}
struct Rng {
    calls: Vec<Call>,
    fail: Option<usize>,
    pos: u64,
    seed: u64,
    /// which operations exist; the others must not be used by the helper under test
    fill: bool,
    word: bool,
    long: bool,
}
impl Rng {
    fn get(&mut self, add: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        if self.calls.len() > 5000 {
            std::panic::panic_any(SimHang("no end of generator calls".into()));
        }
        let ok = self.fail != Some(self.calls.len());
        if !ok {
            fault("generator_fails");
        }
        Plat::stream(self.seed, &mut self.pos, dest);
        self.calls.push(Call { out: dest.to_vec(), add: add.to_vec(), ok });
        if ok { Ok(()) } else { Err(DrbgError) }
    }
}
impl Drbg for Rng {
    type Entropy = [u8; 1];
    type Nonce = [u8; 0];
    fn instantiate(_: &[u8; 1], _: &[u8; 0], _: &[u8]) -> Result<Self, DrbgError> {
        Err(DrbgError)
    }
    fn reseed(&mut self, _: &[u8; 1], _: &[u8]) -> Result<(), DrbgError> {
        fail("side-effect", "a helper reseeded the generator");
        Ok(())
    }
    fn next_u32(&mut self, add: &[u8]) -> Result<u32, DrbgError> {
        if !self.word {
            fail("recursion", "the helper uses the operation it implements (next_u32)");
            std::panic::panic_any(Abort);
        }
        let mut b = [0; 4];
        self.get(add, &mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, add: &[u8]) -> Result<u64, DrbgError> {
        if !self.long {
            fail("recursion", "the helper uses the operation it implements (next_u64)");
            std::panic::panic_any(Abort);
        }
        let mut b = [0; 8];
        self.get(add, &mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, add: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        if !self.fill {
            fail("recursion", "the helper uses the operation it implements (fill_bytes)");
            std::panic::panic_any(Abort);
        }
        self.get(add, dest)
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}

fn c21() {
    for _ in 0..seldom_long(4) {
        let kind = draw(4);
        let n = match kind {
            0 if chance(1, 60) => draw(30_000) as usize,
            0 => match draw(4) {
                0 => draw(5) as usize,
                1 => draw(30) as usize,
                2 => 8 * draw(20) as usize + draw(9) as usize,
                _ => draw(600) as usize,
            },
            1 => 4,
            _ => 8,
        };
        let k = if chance(1, 10) { draw(1000) } else { draw(40) } as usize;
        let add = if chance(1, 3) { vec![] } else { bytes(k) };
        let seed = draw(1 << 40);
        let fail_at = if chance(1, 3) { Some(draw(n as u64 / 6 + 2) as usize) } else { None };
        // a helper for one operation may use any operation the generator implements itself
        let mut g = Rng { calls: vec![], fail: fail_at, pos: 0, seed, fill: kind == 1 || kind == 2, word: kind == 0 || kind == 3, long: kind == 0 };
        let mut dest = vec![0xEEu8; n];
        let name = ["fill_bytes_via_next", "next_u32_via_fill", "next_u64_via_fill", "next_u64_via_u32"][kind as usize];
        op_done();
        nontrivial();
        note(&[kind as u8, n as u8, (n >> 8) as u8, add.is_empty() as u8]);
        let r = sut(name, || match kind {
            0 => drbg_helpers::fill_bytes_via_next(&mut g, &add, &mut dest),
            1 => drbg_helpers::next_u32_via_fill(&mut g, &add).map(|x| dest.copy_from_slice(&x.to_le_bytes())),
            2 => drbg_helpers::next_u64_via_fill(&mut g, &add).map(|x| dest.copy_from_slice(&x.to_le_bytes())),
            _ => drbg_helpers::next_u64_via_u32(&mut g, &add).map(|x| dest.copy_from_slice(&x.to_le_bytes())),
        });
        let Some(r) = r else { return };
        tr!("{name}: {n} bytes, {} bytes of additional input, failing call {fail_at:?}: {} after {} calls", add.len(), r.is_ok(), g.calls.len());
        let bad = g.calls.iter().position(|c| !c.ok);
        match (&r, bad) {
            (Ok(()), Some(i)) => fail("fault-hidden", format!("{name}: generator call {i} failed but the helper succeeded")),
            (Err(_), None) => fail("invented-fault", format!("{name}: failed although the generator did not")),
            (Err(_), Some(i)) => ensure!(i + 1 == g.calls.len(), "continued", "{name}: went on after generator call {i} failed"),
            (Ok(()), None) => {
                let mut pos = 0;
                for c in &g.calls {
                    let k = c.out.len().min(n - pos);
                    ensure!(k > 0 || c.out.is_empty(), "lost", "{name}: generated more than it delivers");
                    ensure!(dest[pos..pos + k] == c.out[..k], "wrong-order", "{name}: byte {pos}.. of the result {} is not the generated {}", hex(&dest), hex(&c.out));
                    pos += k;
                }
                ensure!(pos == n, "invented", "{name}: {n} bytes delivered but only {pos} generated");
                let made: usize = g.calls.iter().map(|c| c.out.len()).sum();
                ensure!(made < n + 4, "lost", "{name}: {made} bytes generated for {n}: a word or more was thrown away");
            }
        }
        for (i, c) in g.calls.iter().enumerate() {
            let want: &[u8] = if i == 0 { &add } else { &[] };
            ensure!(c.add == want, "additional-input", "{name}: call {i} got additional input {} instead of {}", hex(&c.add), hex(want));
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ registration

const REAL: &[&str] = &["tpm2-impl TpmContext, command handlers, request/response cursors, in-place and separate buffers"];
const STUB: &[&str] = &["entropy source and random generator (unique, logged output; scripted failures, reseed interval)", "platform buffers (plain slices, or logged buffers that refuse accesses)"];
const ASSUME: &[&str] = &["model of the supported command (GetRandom) and of the refusal rules in sim/src/server.rs"];

pub const C15: Prop = Prop {
    id: "C15",
    scenario: c15,
    quick: 6_000_000,
    thorough: 80_000_000,
    rule: "1-6 requests per run, half executable and half damaged, response capacities 0-66000 biased to the boundaries, in place or separate, sometimes with generator faults; non-trivial: a damaged request or generator fault",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C16: Prop = Prop {
    id: "C16",
    scenario: c16,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "1-8 requests per run, generator seed and nonce sizes 0-300 (nonce absent, shorter, half, equal and longer than the seed), reseed intervals 1-3 or never, generators that refuse or do not refuse when overdue; non-trivial: an executable GetRandom was judged",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C17: Prop = Prop {
    id: "C17",
    scenario: c17,
    quick: 6_000_000,
    thorough: 80_000_000,
    rule: "1-7 requests per run, three quarters not executable; non-trivial: a request had to be refused",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C18: Prop = Prop {
    id: "C18",
    scenario: c18,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "generator failures at drawn calls (instantiate, reseed, generate with partial output, request beyond the generator's limit) inside histories of 2-9 requests; non-trivial: a failure fired",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C19: Prop = Prop {
    id: "C19",
    scenario: c19,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "two servers on identical platforms run the same 1-7 requests, one in place and one with separate buffers, with and without generator faults; non-trivial: every run",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C20: Prop = Prop {
    id: "C20",
    scenario: c20,
    quick: 6_000_000,
    thorough: 80_000_000,
    rule: "1-6 requests per run with drawn read and write refusals of the platform buffers, stale bytes behind in-place requests; an eighth of the runs drives the plain-slice buffer against a model; non-trivial: every run",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C21: Prop = Prop {
    id: "C21",
    scenario: c21,
    quick: 7_200_000,
    thorough: 80_000_000,
    rule: "1-4 helper calls per run, destinations of 0-600 bytes, drawn additional input, generator failure at a drawn call; non-trivial: every run",
    real: &["tpm2-impl drbg_helpers"],
    stub: &["the underlying random generator (unique, logged output; scripted failures)"],
    assumptions: &["none beyond the trait's contract"],
};
