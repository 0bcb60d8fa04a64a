//! C24: client and TPM mean the same thing by every name.
//!
//! The real client library talks through the real TCP connection to a simulated TPM that knows
//! only the specification (`dict.rs`: literal numbers and bit positions). The client names things
//! with the library's constants and edits attribute words with the library's operations; the TPM
//! sees numbers and bits, checks them against what that name means, edits the words itself, and
//! answers in numbers, which the client reads back under the library's names.

use crate::dict::{self, Name};
use crate::engine::*;
use crate::ops::Link;
use crate::runner::Prop;
use crate::wire::{be, enc};
use crate::world::*;
use crate::{ensure, tr};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use tpm2_client::{get_capability, run_command, run_command_with_handles};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, Result as MRes, UnmarshalBuf};

struct Dict {
    algs: Vec<Name>,
    curves: Vec<Name>,
    commands: Vec<Name>,
    properties: Vec<Name>,
    pcr: Vec<Name>,
    handles: Vec<Name>,
    caps: Vec<Name>,
    startups: Vec<Name>,
    /// names that only ever appear as values
    rest: Vec<Name>,
}
thread_local! {
    static DICT: Rc<Dict> = Rc::new(Dict {
        algs: dict::algs(), curves: dict::curves(), commands: dict::commands(), properties: dict::properties(),
        pcr: dict::pcr_properties(), handles: handles(), caps: dict::capabilities(), startups: dict::startups(),
        rest: [dict::codes(), dict::comparisons(), dict::tags(), dict::session_types(), dict::handle_types(), dict::index_types(),
            dict::generated(), dict::borrowed_algs(), dict::interfaces(), digest_sizes()].concat(),
    });
}
fn handles() -> Vec<Name> {
    let mut v = dict::handles();
    v.extend([
        ("TpmHc::HmacSessionFirst", TpmHc::HmacSessionFirst.get(), 0x0200_0000),
        ("TpmHc::HmacSessionLast", TpmHc::HmacSessionLast.get(), 0x0200_003f),
        ("TpmHc::PolicySessionFirst", TpmHc::PolicySessionFirst.get(), 0x0300_0000),
        ("TpmHc::PolicySessionLast", TpmHc::PolicySessionLast.get(), 0x0300_003f),
        ("TpmHc::PersistentFirst", TpmHc::PersistentFirst.get(), 0x8100_0000),
        ("TpmHc::PersistentLast", TpmHc::PersistentLast.get(), 0x81ff_ffff),
        ("TpmHc::NVIndexFirst", TpmHc::NVIndexFirst.get(), 0x0100_0000),
        ("TpmHc::NVIndexLast", TpmHc::NVIndexLast.get(), 0x01ff_ffff),
    ]);
    v
}
fn digest_sizes() -> Vec<Name> {
    vec![
        ("TPM2_SHA_DIGEST_SIZE", TPM2_SHA_DIGEST_SIZE, 20),
        ("TPM2_SHA1_DIGEST_SIZE", TPM2_SHA1_DIGEST_SIZE, 20),
        ("TPM2_SHA256_DIGEST_SIZE", TPM2_SHA256_DIGEST_SIZE, 32),
        ("TPM2_SHA384_DIGEST_SIZE", TPM2_SHA384_DIGEST_SIZE, 48),
        ("TPM2_SHA512_DIGEST_SIZE", TPM2_SHA512_DIGEST_SIZE, 64),
        ("TPM2_SM3_256_DIGEST_SIZE", TPM2_SM3_256_DIGEST_SIZE, 32),
        ("TpmRc::RC_VER_1", TpmRc::RC_VER_1, 0x100),
        ("TpmRc::RC_FMT_1", TpmRc::RC_FMT_1, 0x80),
        ("TpmRc::RC_WARN", TpmRc::RC_WARN, 0x900),
        ("TpmRc::RC_P", TpmRc::RC_P, 0x40),
        ("TpmRc::RC_S", TpmRc::RC_S, 0x800),
    ]
}

// ------------------------------------------------------------------ attribute words

trait Attr: Marshalable + Copy + Debug + 'static {
    const WIDTH: usize;
    fn flags() -> Vec<(&'static str, Self, u32)>;
    fn from_word(w: u32) -> Self;
    fn word(&self) -> u32;
    fn has(&self, f: Self) -> bool;
    fn add(&mut self, f: Self);
    fn del(&mut self, f: Self);
    fn flip(&mut self, f: Self);
    fn put(&mut self, f: Self, on: bool);
    fn joined(self, f: Self) -> Self;
}
macro_rules! attr { ($($t:ident $i:ty, $f:path;)*) => { $(
    impl Attr for $t {
        const WIDTH: usize = size_of::<$i>();
        fn flags() -> Vec<(&'static str, Self, u32)> { $f() }
        fn from_word(w: u32) -> Self { $t(w as $i) }
        fn word(&self) -> u32 { u32::from(self.0) }
        fn has(&self, f: Self) -> bool { self.contains(f) }
        fn add(&mut self, f: Self) { self.insert(f) }
        fn del(&mut self, f: Self) { self.remove(f) }
        fn flip(&mut self, f: Self) { self.toggle(f) }
        fn put(&mut self, f: Self, on: bool) { self.set(f, on) }
        fn joined(self, f: Self) -> Self { self.union(f) }
    } )* } }
attr! { TpmaLocality u8, dict::f_locality; TpmaNv u32, dict::f_nv; TpmaObject u32, dict::f_object;
    TpmaAlgorithm u32, dict::f_algorithm; TpmaSession u8, dict::f_session; TpmaCc u32, dict::f_cc; }

/// Vendor command: store this attribute word, return the word as the TPM left it.
struct Store<T>(T);
impl<T: Attr> Marshalable for Store<T> {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        self.0.try_marshal(buf)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        T::try_unmarshal(b).map(Store)
    }
}
impl<T: Attr> TpmCommand for Store<T> {
    const CMD_CODE: TpmCc = TpmCc(0x2000_0001);
    type Handles = TpmHandle;
    type RespT = T;
    type RespHandles = ();
}
/// Vendor command: tell the TPM a number; it returns a number.
struct Tell(u32);
impl Marshalable for Tell {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        self.0.try_marshal(buf)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        u32::try_unmarshal(b).map(Tell)
    }
}
impl TpmCommand for Tell {
    const CMD_CODE: TpmCc = TpmCc(0x2000_0002);
    type Handles = TpmHandle;
    type RespT = u32;
    type RespHandles = ();
}

// ------------------------------------------------------------------ the simulated TPM

#[derive(Default)]
struct Tpm {
    log: Vec<Vec<u8>>,
    answer: Vec<u8>,
}
struct Side {
    l: Link,
    tpm: Rc<RefCell<Tpm>>,
    d: Rc<Dict>,
}
impl Side {
    /// Runs one command against a TPM that answers `body`; returns what the TPM received behind
    /// the header, or None if the call failed.
    fn call<R>(&mut self, what: &str, cc: u32, body: Vec<u8>, f: impl FnOnce(&mut Link) -> Result<R, String>) -> Option<(Vec<u8>, R)> {
        op_done();
        let from = self.tpm.borrow().log.len();
        let mut a = vec![0x80, 0x01];
        a.extend_from_slice(&(body.len() as u32 + 10).to_be_bytes());
        a.extend_from_slice(&[0; 4]);
        a.extend_from_slice(&body);
        self.tpm.borrow_mut().answer = a;
        note(what.as_bytes());
        let r = sut(what, || f(&mut self.l))?;
        let log = self.tpm.borrow().log[from..].to_vec();
        if log.len() != 1 || log[0].len() < 10 {
            fail("exchange", format!("{what}: the TPM received {} commands", log.len()));
            return None;
        }
        let req = &log[0];
        tr!("{what}: the TPM received {}", hex(req));
        ensure!(req[..2] == [0x80, 0x01] && be(&req[2..6]) as usize == req.len(), "header", "{what}: header {}", hex(&req[..10]));
        ensure!(be(&req[6..10]) as u32 == cc, "command-code", "{what}: the TPM was sent command {:#x}, not {cc:#x}", be(&req[6..10]));
        match r {
            Ok(v) => Some((req[10..].to_vec(), v)),
            Err(e) => {
                fail("spurious-error", format!("{what}: failed with {e} although the TPM answered {}", hex(&body)));
                None
            }
        }
    }
}
fn name(v: &[Name]) -> Name {
    v[draw(v.len() as u64) as usize]
}
/// The library's names for a number the TPM sent are exactly the specification's.
fn recognised(what: &str, dict: &[Name], lib: u32, sent: u32) {
    ensure!(lib == sent, "wrong-value", "{what}: the TPM sent {sent:#x} and the client exposes {lib:#x}");
    for (n, l, s) in dict {
        ensure!((lib == *l) == (sent == *s), "wrong-name", "{what}: the TPM sent {sent:#x}, and the client {} it as {n} ({s:#x})", if lib == *l { "recognises" } else { "does not recognise" });
    }
}
fn flags_match<T: Attr>(v: T, bits: u32) {
    for (n, f, b) in T::flags() {
        ensure!(v.has(f) == (bits & b != 0), "wrong-flag", "{n} reads as {} in a word with bits {bits:#x}", v.has(f));
    }
}

fn ask_capability(s: &mut Side) {
    let d = s.d.clone();
    let (kind, table): (usize, &[Name]) = match draw(7) {
        0 => (0, &d.algs),
        1 => (1, &d.handles),
        2 => (2, &d.commands),
        3 => (3 + draw(2) as usize, &d.commands),
        4 => (6, &d.properties),
        5 => (7, &d.pcr),
        _ => (8, &d.curves),
    };
    let cap = d.caps[kind];
    let first = name(table);
    let count = int(32) as u32;
    let n = draw(6) as usize;
    let mut body = vec![draw(2) as u8];
    body.extend_from_slice(&cap.2.to_be_bytes());
    body.extend_from_slice(&(n as u32).to_be_bytes());
    let mut sent = Vec::new();
    for _ in 0..n {
        let id = if chance(1, 6) { int(32) as u32 } else { name(table).2 };
        let extra = int(32) as u32;
        match kind {
            0 => {
                body.extend_from_slice(&(id as u16).to_be_bytes());
                body.extend_from_slice(&extra.to_be_bytes());
            }
            2 => body.extend_from_slice(&extra.to_be_bytes()),
            6 => {
                body.extend_from_slice(&id.to_be_bytes());
                body.extend_from_slice(&extra.to_be_bytes());
            }
            7 => {
                body.extend_from_slice(&id.to_be_bytes());
                body.extend_from_slice(&[1, extra as u8]);
            }
            8 => body.extend_from_slice(&(id as u16).to_be_bytes()),
            _ => body.extend_from_slice(&id.to_be_bytes()),
        }
        sent.push((id, extra));
    }
    let lib_cap = [TpmCap::Algs, TpmCap::Handles, TpmCap::Commands, TpmCap::PPCommands, TpmCap::AuditCommands, TpmCap::PCRs, TpmCap::TPMProperties, TpmCap::PCRProperties, TpmCap::ECCCurves][kind];
    let cmd = GetCapabilityCmd { capability: lib_cap, property: TpmPt(first.1), property_count: count };
    let what = format!("GetCapability({}, {})", cap.0, first.0);
    let more = body[0];
    let Some((p, r)) = s.call(&what, 0x17a, body, |l| get_capability(&mut l.conn, &cmd).map_err(|e| format!("{e:?}"))) else { return };
    let mut want = cap.2.to_be_bytes().to_vec();
    want.extend_from_slice(&first.2.to_be_bytes());
    want.extend_from_slice(&count.to_be_bytes());
    ensure!(p == want, "wrong-number", "{what}: the TPM was asked {} instead of {}", hex(&p), hex(&want));
    ensure!(r.more_data.0 == more && (r.more_data == TpmiYesNo::YES) == (more == 1), "wrong-value", "{what}: moreData {more} reads as {:?}", r.more_data.0);
    let len = |got: usize| ensure!(got == n, "wrong-value", "{what}: {n} entries were sent and {got} are exposed");
    match (kind, &r.capability_data) {
        (0, TpmsCapabilityData::Algorithms(x)) => {
            len(x.count());
            for (e, (id, extra)) in x.alg_properties().iter().zip(&sent) {
                recognised(&what, table, e.alg.0.into(), *id & 0xffff);
                flags_match(e.alg_properties, *extra);
            }
        }
        (1, TpmsCapabilityData::Handles(x)) => {
            len(x.count());
            x.handle().iter().zip(&sent).for_each(|(e, (id, _))| recognised(&what, table, e.0, *id));
        }
        (2, TpmsCapabilityData::Command(x)) => {
            // no accessors: only its encoding shows what it holds
            let mut want = (n as u32).to_be_bytes().to_vec();
            sent.iter().for_each(|(_, extra)| want.extend_from_slice(&extra.to_be_bytes()));
            ensure!(enc(x).as_ref() == Ok(&want), "wrong-value", "{what}: the TPM sent {} and the client holds {:?}", hex(&want), enc(x));
        }
        (3, TpmsCapabilityData::PpCommands(x)) | (4, TpmsCapabilityData::AuditCommands(x)) => {
            len(x.count());
            x.command_codes().iter().zip(&sent).for_each(|(e, (id, _))| recognised(&what, table, e.0, *id));
        }
        (6, TpmsCapabilityData::TpmProperties(x)) => {
            len(x.count());
            for (e, (id, extra)) in x.tpm_property().iter().zip(&sent) {
                recognised(&what, table, e.property.0, *id);
                ensure!(e.value == *extra, "wrong-value", "{what}: {extra:#x} reads as {:#x}", e.value);
            }
        }
        (7, TpmsCapabilityData::PcrProperties(x)) => len(x.count()),
        (8, TpmsCapabilityData::EccCurves(x)) => {
            len(x.count());
            x.ecc_curves().iter().zip(&sent).for_each(|(e, (id, _))| recognised(&what, table, e.0.into(), *id & 0xffff));
        }
        _ => fail("wrong-name", format!("{what}: answer under another capability's name: {:?}", std::mem::discriminant(&r.capability_data))),
    }
}

fn edit<T: Attr>(v: &mut T, m: &mut u32, flags: &[(&'static str, T, u32)]) {
    let (n, f, b) = flags[draw(flags.len() as u64) as usize];
    let k = draw(5);
    note(&[k as u8]);
    match k {
        0 => {
            v.add(f);
            *m |= b;
        }
        1 => {
            v.del(f);
            *m &= !b;
        }
        2 => {
            v.flip(f);
            *m ^= b;
        }
        3 => {
            let on = chance(1, 2);
            v.put(f, on);
            if on { *m |= b } else { *m &= !b }
        }
        _ => {
            *v = v.joined(f);
            *m |= b;
        }
    }
    tr!("  {} {n}", ["insert", "remove", "toggle", "set", "union"][k as usize]);
}
/// A history of edits on both sides of one attribute word.
fn attributes<T: Attr>(s: &mut Side, special: fn(&mut T, &mut u32), look: fn(T, u32)) {
    let flags = T::flags();
    let mask = if T::WIDTH == 1 { 0xff } else { u32::MAX };
    let mut m = if chance(1, 2) { 0 } else { int(8 * T::WIDTH as u32) as u32 & mask };
    let mut v = T::from_word(m);
    for _ in 0..1 + draw(4) {
        for _ in 0..draw(6) {
            if chance(1, 4) { special(&mut v, &mut m) } else { edit(&mut v, &mut m, &flags) }
            ensure!(v.word() == m, "wrong-bit", "after an edit the word is {:#x}, the specification says {m:#x}", v.word());
        }
        // the TPM edits the word, too (for example marks an index as written)
        let mut back = m;
        for _ in 0..draw(4) {
            back ^= 1 << draw(8 * T::WIDTH as u64);
        }
        let h = name(&s.d.handles);
        let body = back.to_be_bytes()[4 - T::WIDTH..].to_vec();
        let Some((p, r)) = s.call("store an attribute word", 0x2000_0001, body, |l| {
            run_command_with_handles(&Store(v), TpmHandle(h.1), (), &mut l.conn).map(|r| r.0).map_err(|e| format!("{e:?}"))
        }) else { return };
        let mut want = h.2.to_be_bytes().to_vec();
        want.extend_from_slice(&m.to_be_bytes()[4 - T::WIDTH..]);
        ensure!(p == want, "wrong-bit", "store {v:?} with handle {}: the TPM received {} instead of {}", h.0, hex(&p), hex(&want));
        ensure!(r.word() == back, "wrong-value", "the TPM sent {back:#x}, the client exposes {:#x}", r.word());
        flags_match(r, back);
        look(r, back);
        if failed() {
            return;
        }
        v = r;
        m = back;
    }
}
fn nothing<T>(_: &mut T, _: &mut u32) {}
fn nv_type(v: &mut TpmaNv, m: &mut u32) {
    let t = if chance(1, 3) { int(8) as u8 } else { pick(&[0u8, 1, 2, 4, 8, 9]) };
    if chance(1, 4) {
        *v = TpmaNv::from(TpmNt(t));
        *m = (u32::from(t) << 4) & 0xf0;
    } else {
        v.set_type(TpmNt(t));
        *m = (*m & !0xf0) | ((u32::from(t) << 4) & 0xf0);
    }
    tr!("  index type {t}");
}
fn nv_look(v: TpmaNv, bits: u32) {
    let t = v.get_index_type().0;
    ensure!(u32::from(t) == (bits >> 4) & 0xf, "wrong-field", "the index type of {bits:#x} reads as {t:#x}");
}

fn tell(s: &mut Side) {
    let d = s.d.clone();
    let all: [&[Name]; 8] = [&d.rest, &d.algs, &d.curves, &d.commands, &d.properties, &d.pcr, &d.handles, &d.caps];
    let t = if chance(1, 2) { all[0] } else { all[draw(8) as usize] };
    let n = name(t);
    let h = name(&d.handles);
    let back = name(t).2;
    let Some((p, r)) = s.call(&format!("tell {}", n.0), 0x2000_0002, back.to_be_bytes().to_vec(), |l| {
        run_command_with_handles(&Tell(n.1), TpmHandle(h.1), (), &mut l.conn).map(|r| r.0).map_err(|e| format!("{e:?}"))
    }) else { return };
    let mut want = h.2.to_be_bytes().to_vec();
    want.extend_from_slice(&n.2.to_be_bytes());
    ensure!(p == want, "wrong-number", "{} with handle {}: the TPM received {} instead of {}", n.0, h.0, hex(&p), hex(&want));
    let group = n.0.split("::").next();
    let same: Vec<Name> = t.iter().filter(|x| x.0.split("::").next() == group && x.0.contains("::")).copied().collect();
    recognised(n.0, &same, r, back);
}

fn start_up(s: &mut Side) {
    let k = draw(2) as usize;
    let n = s.d.startups[k];
    let cmd = StartupCmd { startup_type: TpmSu(n.1 as u16) };
    let Some((p, ())) = s.call(n.0, 0x144, vec![], |l| run_command(&cmd, &mut l.conn).map_err(|e| format!("{e:?}"))) else { return };
    ensure!(p == (n.2 as u16).to_be_bytes(), "wrong-number", "{}: the TPM received {}", n.0, hex(&p));
}

fn handle_value() -> u32 {
    let base = pick(&[0u32, 0x0100_0000, 0x0200_0000, 0x0300_0000, 0x4000_0000, 0x8000_0000, 0x8100_0000, 0x9000_0000]);
    match draw(5) {
        0 => base.wrapping_add(draw(3) as u32).wrapping_sub(1),
        1 => base.wrapping_add(0x3f).wrapping_add(draw(3) as u32).wrapping_sub(1),
        2 => base.wrapping_add(0xff_ffff).wrapping_add(draw(3) as u32).wrapping_sub(1),
        3 => base.wrapping_add(int(24) as u32),
        _ => int(32) as u32,
    }
}
fn handle_ranges(s: &mut Side) {
    let h = if chance(1, 6) { name(&s.d.handles).2 } else { handle_value() };
    let nv = h >> 24 == 1;
    let hmac = (0x0200_0000..0x0200_0040).contains(&h);
    let policy = (0x0300_0000..0x0300_0040).contains(&h);
    let is = |what: &str, got: bool, want: bool| ensure!(got == want, "wrong-range", "{what}({h:#x}) is {got}");
    let Some(()) = sut("handle predicates", || {
        is("is_nv_index", TpmHc::is_nv_index(h), nv);
        is("is_hmac_session", TpmHc::is_hmac_session(h), hmac);
        is("is_policy_session", TpmHc::is_policy_session(h), policy);
    }) else { return };
    let index = TpmiRhNvIndex::try_from(h);
    let session = TpmiShAuthSession::try_from(h);
    is("TpmiRhNvIndex", index.is_ok(), nv);
    is("TpmiShAuthSession", session.is_ok(), hmac || policy || h == 0x4000_0009);
    if let Err(e) = index {
        ensure!(e == TpmRcError::Value, "wrong-error", "TpmiRhNvIndex({h:#x}) is refused with {e:?}");
    }
    if let Err(e) = session {
        ensure!(e == TpmRcError::Value, "wrong-error", "TpmiShAuthSession({h:#x}) is refused with {e:?}");
    }
    note(&[nv as u8, hmac as u8, policy as u8]);
    op_done();
    let mut b = [0u8; 4];
    let n = if let Ok(x) = index { x.try_marshal(&mut b) } else if let Ok(x) = session { x.try_marshal(&mut b) } else { return };
    ensure!(n == Ok(4) && b == h.to_be_bytes(), "wrong-number", "handle {h:#x} encodes as {}", hex(&b));
}

fn c24() {
    let w = World::new(Net::calm());
    let g = w.enter();
    let level = draw(3);
    let net = Net::draw(level);
    w.i.borrow_mut().net = net;
    let Some(l) = Link::open(&w, 2321, 2322) else { return };
    let tpm = Rc::new(RefCell::new(Tpm::default()));
    let t = tpm.clone();
    w.i.borrow_mut().peers[l.peer].backend = Some(Box::new(move |_, req| {
        let mut t = t.borrow_mut();
        t.log.push(req.to_vec());
        std::mem::take(&mut t.answer)
    }));
    let mut s = Side { l, tpm, d: DICT.with(|d| d.clone()) };
    let steps = 1 + draw(8);
    for _ in 0..steps {
        if failed() {
            break;
        }
        match weighted(&[4, 6, 4, 1, 3]) {
            0 => ask_capability(&mut s),
            1 => {
                nontrivial();
                match draw(6) {
                    0 => attributes::<TpmaLocality>(&mut s, nothing, |_, _| {}),
                    1 => attributes::<TpmaNv>(&mut s, nv_type, nv_look),
                    2 => attributes::<TpmaObject>(&mut s, nothing, |_, _| {}),
                    3 => attributes::<TpmaAlgorithm>(&mut s, nothing, |_, _| {}),
                    4 => attributes::<TpmaSession>(&mut s, nothing, |_, _| {}),
                    _ => attributes::<TpmaCc>(&mut s, nothing, |_, _| {}),
                }
            }
            2 => tell(&mut s),
            3 => start_up(&mut s),
            _ => handle_ranges(&mut s),
        }
    }
    drop(s);
    drop(g);
}

pub const C24: Prop = Prop {
    id: "C24",
    scenario: c24,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "a real client over real TCP to a TPM that knows only the specification's numbers: 1-8 steps per run of capability queries by name, histories of attribute edits on both sides, start-ups, named values and handles near range ends, with drawn segmentation, delay, short and interrupted I/O; non-trivial: a fault fired or an attribute history ran",
    real: &["tpm2-rs-base constants, attribute words, handle ranges and codecs", "tpm2-client run_command and TcpConnection", "tpm2 Alg"],
    stub: &["sockets, clock", "the TPM (a dictionary of the specification)"],
    assumptions: &["names without a public value or accessor (command index and handle count fields of TPMA_CC, extended localities) are not observable and not judged"],
};
