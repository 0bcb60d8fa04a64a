//! Operations of the TCP connection, their expected requests and answers.

use crate::engine::*;
use crate::tr;
use crate::world::*;
use std::rc::Rc;
use tpm2_client::connection::{Connection, SimulatorPlatformSignal as Sig, TcpConnection};

pub const SIGNALS: [(Sig, u32); 12] = [
    (Sig::PowerOn, 1),
    (Sig::PowerOff, 2),
    (Sig::PhysicalPresenceOn, 3),
    (Sig::PhysicalPresenceOff, 4),
    (Sig::CancelOn, 9),
    (Sig::CancelOff, 10),
    (Sig::NvOn, 11),
    (Sig::NvOff, 12),
    (Sig::KeyCacheOn, 13),
    (Sig::KeyCacheOff, 14),
    (Sig::Reset, 17),
    (Sig::Restart, 18),
];

#[derive(Clone, Debug)]
pub enum Op {
    Transact { cmd: Vec<u8>, resp: Vec<u8>, room: usize },
    SetLocality(u8),
    Signal(usize),
    FailureMode,
    Sizes,
    Act(u32),
    FwHash(u32),
    FwSvn(u32),
    Handshake(u32),
    AltResult(u32),
    Hcrtm(Vec<u8>),
    Reinit,
    SessionEnd,
    Stop,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Unit,
    Bytes(Vec<u8>),
    Two(u32, u32),
    Four([u32; 4]),
    One(u32),
}

#[derive(Debug)]
pub enum Out {
    Ok(Val),
    Err(std::io::Error),
    Broken, // panicked or hung: violation already recorded
}
impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Transact { .. } => "transact",
            Op::SetLocality(_) => "set_locality",
            Op::Signal(_) => "platform_signal",
            Op::FailureMode => "test_failure_mode",
            Op::Sizes => "get_command_response_sizes",
            Op::Act(_) => "act_get_signaled",
            Op::FwHash(_) => "set_firmware_hash",
            Op::FwSvn(_) => "set_firmware_svn",
            Op::Handshake(_) => "remote_handshake",
            Op::AltResult(_) => "set_alternative_result",
            Op::Hcrtm(_) => "hcrtm_sequence",
            Op::Reinit => "reinit",
            Op::SessionEnd => "session_end",
            Op::Stop => "stop_simulator",
        }
    }
    pub fn port(&self) -> Port {
        match self {
            Op::Signal(_)
            | Op::FailureMode
            | Op::Sizes
            | Op::Act(_)
            | Op::FwHash(_)
            | Op::FwSvn(_)
            | Op::Reinit => Port::Plat,
            _ => Port::Tpm,
        }
    }
    /// The requests this operation must put on its port.
    pub fn requests(&self, locality: u8) -> Vec<(Port, Req)> {
        use Port::*;
        match self {
            Op::Transact { cmd, .. } => vec![(Tpm, Req::Command { locality, data: cmd.clone() })],
            Op::SetLocality(_) => vec![],
            Op::Signal(i) => vec![(Plat, Req::Signal(SIGNALS[*i].1))],
            Op::FailureMode => vec![(Plat, Req::FailureMode)],
            Op::Sizes => vec![(Plat, Req::Sizes)],
            Op::Act(v) => vec![(Plat, Req::Act(*v))],
            Op::FwHash(v) => vec![(Plat, Req::FwHash(*v))],
            Op::FwSvn(v) => vec![(Plat, Req::FwSvn(*v))],
            Op::Handshake(v) => vec![(Tpm, Req::Handshake(*v))],
            Op::AltResult(v) => vec![(Tpm, Req::AltResult(*v))],
            Op::Hcrtm(d) => {
                vec![(Tpm, Req::HashStart), (Tpm, Req::HashData(d.clone())), (Tpm, Req::HashEnd)]
            }
            Op::Reinit => [12u32, 2, 1, 11].iter().map(|c| (Plat, Req::Signal(*c))).collect(),
            Op::SessionEnd => vec![(Tpm, Req::SessionEnd), (Plat, Req::SessionEnd)],
            Op::Stop => vec![(Tpm, Req::Stop), (Plat, Req::Stop)],
        }
    }
    /// Bytes of the whole honest answer (for choosing cut points).
    pub fn answer_len(&self) -> usize {
        match self {
            Op::Transact { resp, .. } => resp.len() + 8,
            Op::Sizes => 24,
            Op::Act(_) => 8,
            Op::Handshake(_) => 12,
            Op::SetLocality(_) | Op::SessionEnd | Op::Stop => 0,
            _ => 4,
        }
    }
    pub fn request_len(&self) -> usize {
        match self {
            Op::Transact { cmd, .. } => cmd.len() + 9,
            Op::Hcrtm(d) => d.len() + 16,
            Op::Reinit => 16,
            Op::Act(_) | Op::FwHash(_) | Op::FwSvn(_) | Op::Handshake(_) | Op::AltResult(_) => 8,
            Op::SetLocality(_) => 0,
            _ => 4,
        }
    }
}

/// A drawn payload length: small, boundary, or large.
pub fn payload_len() -> usize {
    match draw(10) {
        0 => draw(3) as usize,
        1..=4 => draw(64) as usize,
        5 => pick(&[4usize, 8, 10, 12, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097]),
        6 | 7 => draw(4097) as usize,
        8 => pick(&[8191usize, 8192, 8193, 16384, 32768, 65535, 65536, 65537]),
        _ => draw(70_000) as usize,
    }
}

pub fn small_len() -> usize {
    match draw(4) {
        0 => draw(3) as usize,
        1 => draw(20) as usize,
        2 => draw(64) as usize,
        _ => draw(600) as usize,
    }
}

/// A command or response of many megabytes.
pub fn gen_enormous() -> Op {
    probe("megabytes");
    let n = pick(&[1usize << 17, 1 << 20, 1 << 24]) + draw(5) as usize;
    let (cmd, resp) = match draw(3) {
        0 => (bytes(n), bytes(10)),
        1 => (bytes(10), bytes(n)),
        _ => (bytes(n), bytes(n)),
    };
    let room = if chance(1, 3) { resp.len() - 1 - draw(9) as usize } else { resp.len() };
    Op::Transact { cmd, resp, room }
}

pub fn gen_transact(big: bool, allow_small_room: bool) -> Op {
    let len = |b| if b { payload_len() } else { small_len() };
    let mut cmd = bytes(len(big));
    let n = len(big);
    let mut resp = bytes(n);
    if chance(1, 3) {
        // a real TPM command and response, so that code which looks inside has something to see
        if cmd.len() < 10 {
            cmd.resize(10, 0);
        }
        if resp.len() < 10 {
            resp.resize(10, 0);
        }
        let (c, r) = (cmd.len() as u32, resp.len() as u32);
        let t = pick(&[0x8001u16, 0x8002, 0x00c4]).to_be_bytes();
        cmd[..2].copy_from_slice(&t);
        cmd[2..6].copy_from_slice(&c.to_be_bytes());
        let cc = pick(&[0x144u32, 0x145, 0x17a, 0x17b, 0x17e, 0x143, 0x165, 0x176, 0x2000_0001]);
        cmd[6..10].copy_from_slice(&cc.to_be_bytes());
        let some = match draw(3) {
            0 => 0x900 + draw(0x30) as u32,
            1 => draw(0x1000) as u32,
            _ => 0,
        };
        let rc = pick(&[some, some, 0u32, 0x922, 0x921, 0x908, 0x909, 0x905, 0x920, 0x923, 0x101, 0x100, 0x143, 0x9a2, 0x1c4]);
        if rc != 0 && chance(3, 4) {
            resp.truncate(10);
        }
        let r = if rc != 0 { resp.len() as u32 } else { r };
        resp[..2].copy_from_slice(&if rc == 0 { t } else { [0x80, 0x01] });
        resp[2..6].copy_from_slice(&r.to_be_bytes());
        resp[6..10].copy_from_slice(&rc.to_be_bytes());
        if rc != 0 {
            probe("tpm_error_response");
        }
    } else if chance(1, 8) {
        // contents that look like protocol words
        let z = pick(&[0u8, 0xff]);
        resp.iter_mut().for_each(|b| *b = z);
    }
    let n = resp.len();
    let room = match draw(6) {
        0 => n,
        1 => n + 1,
        2 => n + draw(64) as usize,
        3 => (n + 4).max(4096),
        4 if allow_small_room && n > 0 => n - 1,
        5 if allow_small_room => draw(n as u64 + 1) as usize,
        _ => n + draw(5000) as usize,
    };
    Op::Transact { cmd, resp, room }
}

/// Number of operations in a history: mostly short, sometimes long.
pub fn history(short: u64) -> u64 {
    match draw(60) {
        0..=53 => range(1, short),
        54..=58 => range(1, 60),
        _ => {
            probe("long_history");
            range(60, 400)
        }
    }
}

/// The same with long histories seldom, for parties whose state hardly depends on the past.
pub fn seldom_long(short: u64) -> u64 {
    match draw(400) {
        0..=389 => range(1, short),
        390..=397 => range(1, 60),
        _ => {
            probe("long_history");
            range(60, 400)
        }
    }
}

pub fn gen_control() -> Op {
    match draw(10) {
        0 | 1 => Op::Signal(draw(12) as usize),
        2 => Op::FailureMode,
        3 => Op::Sizes,
        4 => Op::Act(int(32) as u32),
        5 => Op::FwHash(int(32) as u32),
        6 => Op::FwSvn(int(32) as u32),
        7 => Op::Handshake(int(32) as u32),
        8 => Op::AltResult(int(32) as u32),
        _ => Op::SetLocality(pick(&[0u8, 1, 2, 3, 4, 5, 31, 32, 127, 128, 254, 255])),
    }
}

/// Runs one operation on the real connection.
pub fn exec(conn: &mut TcpConnection, op: &Op) -> Out {
    let name = op.name();
    note(name.as_bytes());
    tr!("client: {name} {}", match op { Op::Transact { cmd, resp, room } => format!("cmd {}B resp {}B room {room}", cmd.len(), resp.len()), Op::Hcrtm(d) => format!("{}B", d.len()), o => format!("{o:?}") });
    op_done();
    let r: Option<std::io::Result<Val>> = sut(name, || match op {
        Op::Transact { cmd, room, .. } => {
            // the buffer starts as a pattern so that fabricated data is visible
            let mut buf = vec![0xA5u8; *room];
            let base = buf.as_ptr() as usize;
            let r = conn.transact(cmd, &mut buf).map(|s| (s.as_ptr() as usize, s.to_vec()));
            r.map(|(at, v)| {
                if !v.is_empty() && at != base {
                    fail("wrong-slice", "transact returned a slice that does not start at the response buffer");
                }
                Val::Bytes(v)
            })
        }
        Op::SetLocality(l) => {
            conn.set_locality(*l);
            Ok(Val::Unit)
        }
        Op::Signal(i) => conn.platform_signal(SIGNALS[*i].0).map(|()| Val::Unit),
        Op::FailureMode => conn.test_failure_mode().map(|()| Val::Unit),
        Op::Sizes => conn.get_command_response_sizes().map(|r| {
            Val::Four([
                r.largest_command_size(),
                r.largest_command(),
                r.largest_response_size(),
                r.largest_response(),
            ])
        }),
        Op::Act(v) => conn.act_get_signaled(*v).map(Val::One),
        Op::FwHash(v) => conn.set_firmware_hash(*v).map(|()| Val::Unit),
        Op::FwSvn(v) => conn.set_firmware_svn(*v).map(|()| Val::Unit),
        Op::Handshake(v) => {
            conn.remote_handshake(*v).map(|r| Val::Two(r.server_version(), r.endpoint_info()))
        }
        Op::AltResult(v) => conn.set_alternative_result(*v).map(|()| Val::Unit),
        Op::Hcrtm(d) => conn.hcrtm_sequence(d).map(|()| Val::Unit),
        Op::Reinit => conn.reinit().map(|()| Val::Unit),
        Op::SessionEnd => conn.session_end().map(|()| Val::Unit),
        Op::Stop => conn.stop_simulator().map(|()| Val::Unit),
    });
    let out = match r {
        None => Out::Broken,
        Some(Ok(v)) => Out::Ok(v),
        Some(Err(e)) => Out::Err(e),
    };
    note(match &out {
        Out::Ok(_) => b"ok",
        Out::Err(_) => b"err",
        Out::Broken => b"broken",
    });
    tr!("  -> {}", match &out { Out::Ok(Val::Bytes(b)) => format!("Ok({}B)", b.len()), o => format!("{o:?}") });
    out
}

/// The value a correct client returns for this answer.
pub fn value_of(op: &Op, last: Option<&Exchange>) -> Val {
    match (op, last.map(|e| &e.ans)) {
        (_, Some(Ans::Bytes(b))) => Val::Bytes(b.clone()),
        (_, Some(Ans::Handshake(a, b))) => Val::Two(*a, *b),
        (_, Some(Ans::Sizes(v))) => Val::Four(*v),
        (_, Some(Ans::Value(v))) => Val::One(*v),
        _ => Val::Unit,
    }
}

/// One connection with its peer and everything needed to judge its calls.
pub struct Link {
    pub w: Rc<World>,
    pub conn: TcpConnection,
    pub peer: usize,
    pub tpm: u64,
    pub plat: u64,
    pub locality: u8,
}

impl Link {
    pub fn open(w: &Rc<World>, tpm_port: u16, plat_port: u16) -> Option<Link> {
        let ip: std::net::IpAddr =
            if chance(1, 4) { pick(&["10.0.0.7", "::1"]) } else { "127.0.0.1" }.parse().unwrap();
        let peer = {
            let mut i = w.i.borrow_mut();
            let peer = i.add_peer();
            i.listen((ip, tpm_port).into(), Port::Tpm, peer, 0, None);
            i.listen((ip, plat_port).into(), Port::Plat, peer, 0, None);
            peer
        };
        // a port left out is the well-known one, whatever the other is
        let port = |p, known| if p == known && chance(1, 2) { None } else { Some(p) };
        let (a, b) = (port(tpm_port, 2321), port(plat_port, 2322));
        let ip = ip.to_string();
        let conn = if chance(1, 4) {
            sut("connect_with_retries", || TcpConnection::connect_with_retries(&ip, a, b))?
        } else {
            sut("connect", || TcpConnection::connect(&ip, a, b))?
        };
        let conn = match conn {
            Ok(c) => c,
            Err(e) => {
                fail("connect", format!("connecting to a listening simulator failed: {e}"));
                return None;
            }
        };
        let i = w.i.borrow();
        let t = i.streams_of(peer, Port::Tpm);
        let p = i.streams_of(peer, Port::Plat);
        if t.len() != 1 || p.len() != 1 {
            fail("connect", format!("expected one connection per port, got {} and {}", t.len(), p.len()));
            return None;
        }
        let (tpm, plat) = (t[0], p[0]);
        drop(i);
        Some(Link { w: w.clone(), conn, peer, tpm, plat, locality: 0 })
    }
    pub fn mark(&self) -> Mark {
        let i = self.w.i.borrow();
        Mark {
            log: i.peers[self.peer].log.len(),
            tpm: i.streams[&self.tpm].creqs.len(),
            plat: i.streams[&self.plat].creqs.len(),
        }
    }
    /// Complete requests written since the mark, per port, and unparsed leftovers.
    pub fn written(&self, m: &Mark) -> (Vec<(Port, Req)>, usize) {
        let i = self.w.i.borrow();
        let t = &i.streams[&self.tpm];
        let p = &i.streams[&self.plat];
        let mut v: Vec<(Port, Req)> =
            t.creqs[m.tpm..].iter().map(|r| (Port::Tpm, r.clone())).collect();
        v.extend(p.creqs[m.plat..].iter().map(|r| (Port::Plat, r.clone())));
        (v, t.creq.leftover() + p.creq.leftover())
    }
    pub fn exchanges(&self, m: &Mark) -> Vec<Exchange> {
        self.w.i.borrow().peers[self.peer].log[m.log..].to_vec()
    }
    /// Runs an operation against an honest peer over a transport that delivers everything, and
    /// checks request, result and framing.
    pub fn run_honest(&mut self, op: &Op) -> Out {
        if let Op::Transact { resp, .. } = op {
            self.w.i.borrow_mut().peers[self.peer].planned.push_back(resp.clone());
        }
        let m = self.mark();
        let out = exec(&mut self.conn, op);
        if let Op::SetLocality(l) = op {
            self.locality = *l;
        }
        if matches!(out, Out::Broken) {
            return out;
        }
        self.check_requests(op, &m);
        let ex = self.exchanges(&m);
        let fits = match op {
            Op::Transact { resp, room, .. } => resp.len() <= *room,
            _ => true,
        };
        match &out {
            Out::Ok(v) if fits => {
                if !matches!(op, Op::SetLocality(_) | Op::SessionEnd | Op::Stop) {
                    let want = value_of(op, ex.last());
                    crate::ensure!(*v == want, "wrong-result", "{}: returned {} but the simulator answered {}", op.name(), show(v), show(&want));
                }
            }
            Out::Ok(_) => fail("too-small-ok", format!("{}: succeeded although the response does not fit", op.name())),
            Out::Err(e) if fits => fail("spurious-error", format!("{}: failed with {e} ({:?}) although the simulator answered correctly", op.name(), e.kind())),
            Out::Err(_) => probe("response_too_large_refused"),
            Out::Broken => {}
        }
        out
    }
    pub fn check_requests(&self, op: &Op, m: &Mark) {
        let (got, left) = self.written(m);
        let want = op.requests(self.locality);
        crate::ensure!(left == 0, "bad-request", "{}: {left} bytes of an incomplete request were written", op.name());
        crate::ensure!(got == want, "bad-request", "{}: wrote {} instead of {}", op.name(), show_reqs(&got), show_reqs(&want));
    }
}

/// More than 4 GiB of zeros (address space only: nothing is ever written to it).
fn zeros(len: usize) -> Option<&'static [u8]> {
    static ALL: std::sync::OnceLock<Option<&'static [u8]>> = std::sync::OnceLock::new();
    const MAX: usize = (1 << 32) + 4096;
    let all = ALL.get_or_init(|| {
        let layout = std::alloc::Layout::array::<u8>(MAX).ok()?;
        // SAFETY: the layout is not empty, and a successful allocation is MAX initialised bytes.
        unsafe {
            let p = std::alloc::alloc_zeroed(layout);
            (!p.is_null()).then(|| std::slice::from_raw_parts(p, MAX))
        }
    });
    all.map(|a| &a[..len])
}

impl Link {
    /// A command, or data to be hashed, whose length the protocol's 32-bit length field cannot
    /// state: it has to be refused, and no part of it may be sent.
    pub fn run_unrepresentable(&mut self, hash: bool) {
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let len = (1usize << 32) + draw(40) as usize;
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let Some(data) = zeros(len) else { return };
        let m = self.mark();
        let sent = {
            let mut i = self.w.i.borrow_mut();
            let s = i.streams.get_mut(&self.tpm).unwrap();
            // never let the simulated socket take gigabytes
            s.write_err = Some((s.sent.len() + 64, std::io::ErrorKind::ConnectionReset));
            s.sent.len()
        };
        let name = if hash { "hcrtm_sequence" } else { "transact" };
        note(name.as_bytes());
        tr!("client: {name} with {len} bytes");
        op_done();
        fault("unrepresentable_length");
        let conn = &mut self.conn;
        let ok = sut(name, || {
            if hash {
                conn.hcrtm_sequence(data).is_ok()
            } else {
                conn.transact(data, &mut [0u8; 64]).is_ok()
            }
        });
        let Some(ok) = ok else { return };
        crate::ensure!(!ok, "unrepresentable-accepted", "{name}: success although {len} bytes cannot be stated in 32 bits");
        let (got, _) = self.written(&m);
        let after = {
            let mut i = self.w.i.borrow_mut();
            let s = i.streams.get_mut(&self.tpm).unwrap();
            s.write_err = None;
            s.sent.len()
        };
        // the start of a hash sequence may already have been signalled
        let start = if hash && got.len() == 1 && got[0].1 == Req::HashStart { 4 } else { 0 };
        crate::ensure!(after - sent == start, "unrepresentable-sent", "{name}: {} bytes of a request with {len} bytes were sent", after - sent);
    }
}

pub fn show(v: &Val) -> String {
    match v {
        Val::Bytes(b) => format!("{} bytes {}", b.len(), hex(&b[..b.len().min(32)])),
        v => format!("{v:?}"),
    }
}
pub fn show_reqs(v: &[(Port, Req)]) -> String {
    v.iter().map(|(p, r)| format!("{p:?}:{}", r.short())).collect::<Vec<_>>().join(", ")
}

pub struct Mark {
    pub log: usize,
    pub tpm: usize,
    pub plat: usize,
}
