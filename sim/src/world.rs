//! The discrete-event world: virtual clock, simulated TCP, processes and files, and a model of the
//! TCG reference simulator (the peer) behind both ports.

use crate::engine::*;
use crate::tr;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{OsStr, OsString};
use std::io::{self, ErrorKind, IoSlice};
use std::net::{Shutdown, SocketAddr};
use std::panic::panic_any;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::Duration;
use tpm2_client::connection::sim_std;

pub type Ns = u64;
pub const US: Ns = 1_000;
pub const MS: Ns = 1_000_000;
pub const SEC: Ns = 1_000_000_000;

const MAX_CALLS: u64 = 1_500_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Port {
    Tpm,
    Plat,
}

/// A request of the TCG simulator protocol.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Req {
    Command { locality: u8, data: Vec<u8> },
    HashStart,
    HashData(Vec<u8>),
    HashEnd,
    Handshake(u32),
    AltResult(u32),
    SessionEnd,
    Stop,
    Signal(u32),
    Sizes,
    Act(u32),
    FailureMode,
    FwHash(u32),
    FwSvn(u32),
    Unknown(u32),
}
impl Req {
    pub fn short(&self) -> String {
        match self {
            Req::Command { locality, data } => format!("Command(loc={locality},{}B)", data.len()),
            Req::HashData(d) => format!("HashData({}B)", d.len()),
            o => format!("{o:?}"),
        }
    }
    /// True if the peer answers this request.
    pub fn has_answer(&self) -> bool {
        !matches!(self, Req::SessionEnd | Req::Stop | Req::Unknown(_))
    }
}

/// Incremental parser for one direction of one port.
#[derive(Default)]
pub struct Parser {
    buf: Vec<u8>,
    dead: bool,
}
fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
impl Parser {
    pub fn feed(&mut self, port: Port, data: &[u8]) -> Vec<Req> {
        let mut out = Vec::new();
        self.buf.extend_from_slice(data);
        while !self.dead {
            let b = &self.buf;
            if b.len() < 4 {
                break;
            }
            let code = be32(b);
            let arg = |n: usize| -> Option<u32> { (b.len() >= n + 4).then(|| be32(&b[n..])) };
            let r: Option<(Req, usize)> = match (port, code) {
                (Port::Tpm, 5) => Some((Req::HashStart, 4)),
                (Port::Tpm, 6) => arg(4).and_then(|l| {
                    let end = 8usize.saturating_add(l as usize);
                    (b.len() >= end).then(|| (Req::HashData(b[8..end].to_vec()), end))
                }),
                (Port::Tpm, 7) => Some((Req::HashEnd, 4)),
                (Port::Tpm, 8) => arg(5).and_then(|l| {
                    let end = 9usize.saturating_add(l as usize);
                    (b.len() >= end)
                        .then(|| (Req::Command { locality: b[4], data: b[9..end].to_vec() }, end))
                }),
                (Port::Tpm, 15) => arg(4).map(|v| (Req::Handshake(v), 8)),
                (Port::Tpm, 16) => arg(4).map(|v| (Req::AltResult(v), 8)),
                (_, 20) => Some((Req::SessionEnd, 4)),
                (_, 21) => Some((Req::Stop, 4)),
                (Port::Plat, 1..=4 | 9..=14 | 17 | 18) => Some((Req::Signal(code), 4)),
                (Port::Plat, 25) => Some((Req::Sizes, 4)),
                (Port::Plat, 26) => arg(4).map(|v| (Req::Act(v), 8)),
                (Port::Plat, 30) => Some((Req::FailureMode, 4)),
                (Port::Plat, 35) => arg(4).map(|v| (Req::FwHash(v), 8)),
                (Port::Plat, 36) => arg(4).map(|v| (Req::FwSvn(v), 8)),
                _ => {
                    self.dead = true;
                    Some((Req::Unknown(code), 4))
                }
            };
            match r {
                Some((req, n)) => {
                    self.buf.drain(..n);
                    out.push(req);
                }
                None => break,
            }
        }
        out
    }
    pub fn leftover(&self) -> usize {
        self.buf.len()
    }
}

/// What the peer does wrong with one answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lie {
    /// Terminator is this non-zero value.
    Terminator(u32),
    /// The length prefix (of answers that have one) is this value; the peer closes afterwards.
    Length(u32),
    /// Only the first n bytes of the answer are sent, then the connection ends.
    Truncate(usize, bool),
}

/// What the peer answered (before any lie).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ans {
    Bytes(Vec<u8>),
    Ack,
    Handshake(u32, u32),
    Sizes([u32; 4]),
    Value(u32),
    None,
}

#[derive(Clone, Debug)]
pub struct Exchange {
    pub port: Port,
    pub req: Req,
    pub ans: Ans,
    pub lied: bool,
}

pub type Backend = Box<dyn FnMut(u8, &[u8]) -> Vec<u8>>;

/// The model of the TCG simulator process.
pub struct Peer {
    pub log: Vec<Exchange>,
    /// Planned TPM responses; when empty the backend is asked.
    pub planned: VecDeque<Vec<u8>>,
    pub backend: Option<Backend>,
    /// Lie at the n-th answered request from now.
    pub lie: Option<(u32, Lie)>,
    pub service_delay: Ns,
    pub stops: [bool; 2],
    pub ends: [bool; 2],
}

#[derive(Clone, Debug)]
pub struct Net {
    pub short_read: u64,
    pub short_write: u64,
    pub eintr: u64,
    pub split: u64,
    pub delay: Ns,
    pub window: Option<usize>,
    pub connect_latency: Ns,
}
impl Net {
    pub fn calm() -> Net {
        Net {
            short_read: 0,
            short_write: 0,
            eintr: 0,
            split: 0,
            delay: 0,
            window: None,
            connect_latency: 0,
        }
    }
    /// Drawn transport behaviour, all of it legal for a working TCP connection.
    pub fn draw(level: u64) -> Net {
        if level == 0 {
            return Net::calm();
        }
        let pc = |hi: u64| if chance(1, 2) { range(1, hi) } else { 0 };
        Net {
            short_read: pc(80),
            short_write: pc(80),
            eintr: pc(30),
            split: pc(90),
            delay: if chance(1, 15) {
                pick(&[600 * SEC, 20 * 3600 * SEC])
            } else {
                pick(&[0, 50 * US, MS, 300 * MS, 20 * SEC])
            },
            window: if chance(1, 4) { Some(range(1, 4096) as usize) } else { None },
            connect_latency: pick(&[0, MS, 40 * MS]),
        }
    }
}

pub struct Stream {
    pub port: Port,
    pub peer: usize,
    pub addr: SocketAddr,
    /// All bytes the client's socket accepted.
    pub sent: Vec<u8>,
    delivered: usize,
    pub creq: Parser,
    /// Requests the client has completely written.
    pub creqs: Vec<Req>,
    sreq: Parser,
    c2s_t: Ns,
    rx: VecDeque<u8>,
    pub consumed: u64,
    s2c_total: u64,
    s2c_t: Ns,
    fin: bool,
    rst: bool,
    rst_reported: bool,
    /// peer side no longer reads or writes
    peer_gone: bool,
    pub shut_wr: bool,
    pub shut_rd: bool,
    pub closed: bool,
    /// Stream offset at which each answer ends.
    pub reply_ends: Vec<u64>,
    /// Number of requests begun while an answer was still outstanding.
    pub pipelined: u32,
    pub cut_c2s: Option<(usize, bool)>,
    pub cut_s2c: Option<(u64, bool)>,
    pub write_err: Option<(usize, ErrorKind)>,
    pub write_zero_at: Option<usize>,
    pub read_err: Option<(u64, ErrorKind)>,
    read_to: Option<Ns>,
}

#[derive(Clone, Debug)]
pub struct SpawnScript {
    pub error: Option<ErrorKind>,
    /// (path suffix, time after spawn, contents) - later entries win
    pub files: Vec<(String, Ns, Vec<u8>)>,
    pub tpm_port: u16,
    pub plat_port: u16,
    /// times after spawn at which the ports start to listen
    pub listen: [Option<Ns>; 2],
    pub crash: Option<Ns>,
    pub ip: std::net::IpAddr,
    /// exit this long after the first stop code
    pub exit_delay: Ns,
    /// what connecting to a port that does not listen yet, or reading a file not yet there, says
    pub unready: (ErrorKind, ErrorKind),
}

pub struct Proc {
    pub alive: bool,
    pub killed: bool,
    pub kill_calls: u32,
    pub exited_by_itself: bool,
    pub peer: usize,
    pub cwd: PathBuf,
    pub program: OsString,
    pub args: Vec<OsString>,
    exit_delay: Ns,
}

struct Listener {
    ready: Ns,
    port: Port,
    peer: usize,
    pid: Option<u64>,
}

enum Ev {
    C2s(u64, usize),
    S2c(u64, Vec<u8>),
    Fin(u64),
    Rst(u64),
    Exit(u64, bool),
}

pub struct Inner {
    pub now: Ns,
    seq: u64,
    q: BTreeMap<(Ns, u64), Ev>,
    pub streams: BTreeMap<u64, Stream>,
    handles: BTreeMap<u64, u64>,
    next_id: u64,
    listeners: BTreeMap<SocketAddr, Listener>,
    pub peers: Vec<Peer>,
    pub procs: BTreeMap<u64, Proc>,
    pub script: Option<SpawnScript>,
    files: BTreeMap<PathBuf, Vec<(Ns, Vec<u8>)>>,
    pub net: Net,
    calls: u64,
    pub connects: Vec<(SocketAddr, bool, Ns)>,
    pub connect_errors: VecDeque<ErrorKind>,
    pub file_reads: u64,
    pub spawns: u64,
}

/// The most bytes one write to a socket takes.
const SEND_MAX: usize = 1 << 20;

pub struct World {
    pub i: RefCell<Inner>,
}

fn err(k: ErrorKind) -> io::Error {
    io::Error::new(k, "simulated")
}

impl Inner {
    fn at(&mut self, t: Ns, ev: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), ev);
    }
    fn tick(&mut self) -> Result<(), ()> {
        self.calls += 1;
        if self.calls > MAX_CALLS { Err(()) } else { Ok(()) }
    }
    fn due(&mut self) {
        while let Some((&(t, s), _)) = self.q.iter().next() {
            if t > self.now {
                break;
            }
            let ev = self.q.remove(&(t, s)).unwrap();
            self.handle(ev);
        }
    }
    /// Advances to the next event. False if there is none.
    fn step(&mut self, limit: Option<Ns>) -> bool {
        let Some((&(t, s), _)) = self.q.iter().next() else { return false };
        if let Some(l) = limit {
            if t > l {
                return false;
            }
        }
        let ev = self.q.remove(&(t, s)).unwrap();
        self.now = self.now.max(t);
        self.handle(ev);
        true
    }
    fn delay(&mut self) -> Ns {
        let d = self.net.delay;
        if d == 0 {
            return 0;
        }
        let x = draw(8);
        if x == 0 {
            0
        } else if x < 7 {
            fault("delay");
            draw((d / 50).max(1))
        } else {
            fault("stall");
            draw(d)
        }
    }
    fn handle(&mut self, ev: Ev) {
        match ev {
            Ev::C2s(id, n) => self.deliver(id, n),
            Ev::S2c(id, data) => {
                let s = self.streams.get_mut(&id).unwrap();
                if !s.rst && !s.closed {
                    s.rx.extend(data);
                }
            }
            Ev::Fin(id) => {
                note(b"fin");
                self.streams.get_mut(&id).unwrap().fin = true;
            }
            Ev::Rst(id) => {
                note(b"rst");
                let s = self.streams.get_mut(&id).unwrap();
                s.rst = true;
                s.rx.clear();
            }
            Ev::Exit(pid, own) => self.proc_exit(pid, own),
        }
    }
    fn proc_exit(&mut self, pid: u64, own: bool) {
        let Some(p) = self.procs.get_mut(&pid) else { return };
        if !p.alive {
            return;
        }
        tr!("[{}] process {pid} exits", self.now);
        note(b"exit");
        p.alive = false;
        p.exited_by_itself = own;
        let peer = p.peer;
        self.listeners.retain(|_, l| l.pid != Some(pid));
        let ids: Vec<u64> =
            self.streams.iter().filter(|(_, s)| s.peer == peer).map(|(i, _)| *i).collect();
        let rst = chance(1, 2);
        for id in ids {
            self.peer_close(id, rst);
        }
    }
    fn peer_close(&mut self, id: u64, rst: bool) {
        let now = self.now;
        let s = self.streams.get_mut(&id).unwrap();
        if s.peer_gone {
            return;
        }
        s.peer_gone = true;
        let t = s.s2c_t.max(now);
        s.s2c_t = t;
        self.at(t, if rst { Ev::Rst(id) } else { Ev::Fin(id) });
    }
    fn deliver(&mut self, id: u64, n: usize) {
        let (data, port, peer) = {
            let s = self.streams.get_mut(&id).unwrap();
            let from = s.delivered;
            s.delivered += n;
            if s.peer_gone {
                // data for a closed socket: the peer's kernel answers with a reset
                let t = s.s2c_t.max(self.now);
                s.s2c_t = t;
                self.at(t, Ev::Rst(id));
                return;
            }
            let mut to = from + n;
            let mut cut = None;
            if let Some((k, rst)) = s.cut_c2s {
                if to >= k {
                    to = k.max(from);
                    cut = Some(rst);
                }
            }
            let d = s.sent[from..to].to_vec();
            let port = s.port;
            let peer = s.peer;
            if let Some(rst) = cut {
                fault(if rst { "reset_mid_request" } else { "close_mid_request" });
                tr!("[{}] {port:?} connection lost after {to} request bytes", self.now);
                let reqs = s.sreq.feed(port, &d);
                for r in reqs {
                    self.request(id, port, peer, r);
                }
                self.peer_close(id, rst);
                return;
            }
            (d, port, peer)
        };
        let reqs = self.streams.get_mut(&id).unwrap().sreq.feed(port, &data);
        for r in reqs {
            self.request(id, port, peer, r);
        }
    }
    fn request(&mut self, id: u64, port: Port, peer: usize, req: Req) {
        if self.streams[&id].peer_gone {
            return;
        }
        note(format!("req{port:?}{}", req.short().split('(').next().unwrap_or("")).as_bytes());
        let p = &mut self.peers[peer];
        let ans = match &req {
            Req::Command { locality, data } => {
                let r = if let Some(r) = p.planned.pop_front() {
                    r
                } else if let Some(b) = p.backend.as_mut() {
                    b(*locality, data)
                } else {
                    Vec::new()
                };
                Ans::Bytes(r)
            }
            Req::Handshake(_) => Ans::Handshake(int(32) as u32, int(32) as u32),
            Req::Sizes => {
                Ans::Sizes([int(32) as u32, int(32) as u32, int(32) as u32, int(32) as u32])
            }
            Req::Act(_) => Ans::Value(int(32) as u32),
            Req::SessionEnd | Req::Stop | Req::Unknown(_) => Ans::None,
            _ => Ans::Ack,
        };
        tr!("[{}] peer {peer} {port:?} got {} -> {:?}", self.now, req.short(), match &ans { Ans::Bytes(b) => format!("{}B {}", b.len(), hex(&b[..b.len().min(24)])), a => format!("{a:?}") });
        let mut lied = false;
        match ans {
            Ans::None => {
                let ix = if port == Port::Tpm { 0 } else { 1 };
                match req {
                    Req::SessionEnd => {
                        p.ends[ix] = true;
                        self.peer_close(id, false);
                    }
                    Req::Stop => {
                        p.stops[ix] = true;
                        let pid = self
                            .procs
                            .iter()
                            .find(|(_, pr)| pr.peer == peer && pr.alive)
                            .map(|(i, pr)| (*i, pr.exit_delay));
                        if let Some((pid, d)) = pid {
                            let t = self.now + d;
                            self.at(t, Ev::Exit(pid, true));
                        } else {
                            self.peer_close(id, false);
                        }
                    }
                    _ => self.peer_close(id, false),
                }
            }
            _ => {
                let mut out = Vec::new();
                match &ans {
                    Ans::Bytes(b) => {
                        out.extend((b.len() as u32).to_be_bytes());
                        out.extend(b);
                    }
                    Ans::Handshake(a, b) => {
                        out.extend(a.to_be_bytes());
                        out.extend(b.to_be_bytes());
                    }
                    Ans::Sizes(v) => {
                        out.extend(16u32.to_be_bytes());
                        out.extend(v[0].to_ne_bytes());
                        out.extend(v[1].to_be_bytes());
                        out.extend(v[2].to_ne_bytes());
                        out.extend(v[3].to_be_bytes());
                    }
                    Ans::Value(v) => out.extend(v.to_be_bytes()),
                    Ans::Ack | Ans::None => {}
                }
                out.extend(0u32.to_be_bytes());
                let full = out.len();
                let mut close = None;
                match &mut p.lie {
                    Some((0, lie)) => {
                        lied = true;
                        match lie.clone() {
                            Lie::Terminator(t) => {
                                fault("bad_terminator");
                                let n = out.len();
                                out[n - 4..].copy_from_slice(&t.to_be_bytes());
                            }
                            Lie::Length(l) => {
                                fault("bad_length");
                                if matches!(ans, Ans::Bytes(_) | Ans::Sizes(_)) {
                                    out[..4].copy_from_slice(&l.to_be_bytes());
                                } else {
                                    // no length to falsify: drop one byte instead
                                    out.pop();
                                }
                                close = Some(false);
                            }
                            Lie::Truncate(k, rst) => {
                                fault(if rst { "reset_mid_answer" } else { "close_mid_answer" });
                                let n = out.len();
                                out.truncate(k % n);
                                close = Some(rst);
                            }
                        }
                        tr!("[{}] peer lies: {:?}", self.now, lie);
                        p.lie = None;
                    }
                    Some((n, _)) => *n -= 1,
                    None => {}
                }
                let sd = p.service_delay;
                let d = if sd > 0 { draw(sd) } else { 0 };
                let total = self.streams[&id].s2c_total + full as u64;
                self.streams.get_mut(&id).unwrap().reply_ends.push(total);
                self.send(id, out, d);
                if let Some(rst) = close {
                    self.peer_close(id, rst);
                }
            }
        }
        self.peers[peer].log.push(Exchange { port, req, ans, lied });
    }
    /// Peer to client bytes, in order, in drawn segments.
    fn send(&mut self, id: u64, mut out: Vec<u8>, extra: Ns) {
        let (gone, cut, total) = {
            let s = &self.streams[&id];
            (s.peer_gone, s.cut_s2c, s.s2c_total)
        };
        if gone {
            return;
        }
        let mut close = None;
        if let Some((k, rst)) = cut {
            if total + out.len() as u64 >= k {
                out.truncate(k.saturating_sub(total) as usize);
                close = Some(rst);
                fault(if rst { "reset_mid_answer" } else { "close_mid_answer" });
            }
        }
        let mut t = self.streams[&id].s2c_t.max(self.now + extra);
        let split = self.net.split;
        let mut segs = 0;
        while !out.is_empty() {
            let n = if split > 0 && segs < 60 && out.len() > 1 && chance(split, 100) {
                fault("segmented");
                segs += 1;
                let m = out.len().min(64);
                1 + draw(m as u64) as usize
            } else {
                out.len()
            };
            let n = n.min(out.len());
            let rest = out.split_off(n);
            t += self.delay();
            self.streams.get_mut(&id).unwrap().s2c_total += n as u64;
            self.at(t, Ev::S2c(id, out));
            out = rest;
        }
        self.streams.get_mut(&id).unwrap().s2c_t = t;
        if let Some(rst) = close {
            self.peer_close(id, rst);
        }
    }
    pub fn add_peer(&mut self) -> usize {
        self.peers.push(Peer {
            log: Vec::new(),
            planned: VecDeque::new(),
            backend: None,
            lie: None,
            service_delay: 0,
            stops: [false; 2],
            ends: [false; 2],
        });
        self.peers.len() - 1
    }
    /// The connection is reset right now, the process behind it lives on.
    pub fn force_reset(&mut self, id: u64) {
        let s = self.streams.get_mut(&id).unwrap();
        s.peer_gone = true;
        s.rst = true;
        s.rx.clear();
        note(b"force-rst");
    }
    pub fn listen(&mut self, addr: SocketAddr, port: Port, peer: usize, ready: Ns, pid: Option<u64>) {
        self.listeners.insert(addr, Listener { ready, port, peer, pid });
    }
    /// Ids of all streams to a peer's port, oldest first.
    pub fn streams_of(&self, peer: usize, port: Port) -> Vec<u64> {
        self.streams.iter().filter(|(_, s)| s.peer == peer && s.port == port).map(|(i, _)| *i).collect()
    }
}

impl World {
    pub fn new(net: Net) -> Rc<World> {
        Rc::new(World {
            i: RefCell::new(Inner {
                now: 0,
                seq: 0,
                q: BTreeMap::new(),
                streams: BTreeMap::new(),
                handles: BTreeMap::new(),
                next_id: 1,
                listeners: BTreeMap::new(),
                peers: Vec::new(),
                procs: BTreeMap::new(),
                script: None,
                files: BTreeMap::new(),
                net,
                calls: 0,
                connects: Vec::new(),
                connect_errors: VecDeque::new(),
                file_reads: 0,
                spawns: 0,
            }),
        })
    }
    /// Makes this the world of the current thread until the guard is dropped.
    pub fn enter(self: &Rc<World>) -> Guard {
        sim_std::install(Some(self.clone()));
        Guard(self.clone())
    }
    /// Lets virtual time pass.
    pub fn advance(&self, d: Ns) {
        let mut i = self.i.borrow_mut();
        let end = i.now + d;
        while i.step(Some(end)) {}
        i.now = i.now.max(end);
    }
    /// Lets everything on its way happen; the clock stops at the last event.
    pub fn settle(&self, max: Ns) {
        let mut i = self.i.borrow_mut();
        let end = i.now + max;
        while i.step(Some(end)) {}
    }
    pub fn now_ns(&self) -> Ns {
        self.i.borrow().now
    }
    fn tick(&self) {
        let over = self.i.borrow_mut().tick().is_err();
        if over {
            panic_any(SimHang("no progress: too many system calls".into()));
        }
    }
}

pub struct Guard(Rc<World>);
impl Drop for Guard {
    fn drop(&mut self) {
        sim_std::install(None);
        add_sim_time(self.0.i.borrow().now);
        // break reference cycles through backends
        let mut i = self.0.i.borrow_mut();
        for p in i.peers.iter_mut() {
            p.backend = None;
        }
    }
}

impl World {
    fn sid(&self, h: u64) -> u64 {
        *self.i.borrow().handles.get(&h).expect("handle")
    }
    fn do_read(&self, h: u64, buf: &mut [u8], peek: bool) -> io::Result<usize> {
        self.tick();
        let id = self.sid(h);
        if buf.is_empty() {
            return Ok(0);
        }
        let deadline = {
            let mut i = self.i.borrow_mut();
            i.due();
            let e = i.net.eintr;
            if e > 0 && chance(e, 100) {
                fault("eintr_read");
                return Err(err(ErrorKind::Interrupted));
            }
            let now = i.now;
            i.streams[&id].read_to.map(|d| now + d)
        };
        loop {
            let mut g = self.i.borrow_mut();
            let i = &mut *g;
            let short = i.net.short_read;
            let now = i.now;
            let s = i.streams.get_mut(&id).unwrap();
            if s.shut_rd {
                return Ok(0);
            }
            let mut limit = buf.len();
            if let Some((k, kind)) = s.read_err {
                if s.consumed >= k {
                    fault("read_error");
                    return Err(err(kind));
                }
                limit = limit.min((k - s.consumed) as usize);
            }
            if s.rst {
                if s.rst_reported {
                    return Ok(0);
                }
                s.rst_reported = true;
                return Err(err(ErrorKind::ConnectionReset));
            }
            if !s.rx.is_empty() {
                let mut n = limit.min(s.rx.len());
                if n > 1 && short > 0 && chance(short, 100) {
                    fault("short_read");
                    n = 1 + draw((n - 1) as u64) as usize;
                }
                for (k, b) in buf.iter_mut().take(n).enumerate() {
                    *b = s.rx[k];
                }
                if !peek {
                    s.rx.drain(..n);
                    s.consumed += n as u64;
                }
                return Ok(n);
            }
            if s.fin {
                return Ok(0);
            }
            let port = s.port;
            if !i.step(deadline) {
                if let Some(d) = deadline {
                    i.now = i.now.max(d);
                    return Err(err(ErrorKind::WouldBlock));
                }
                drop(g);
                panic_any(SimHang(format!(
                    "blocked forever reading from the {port:?} port at t={now}ns"
                )));
            }
        }
    }
}

impl sim_std::World for World {
    fn connect(&self, addr: SocketAddr, timeout: Option<Duration>) -> io::Result<u64> {
        self.tick();
        let mut i = self.i.borrow_mut();
        let lat = i.net.connect_latency;
        if lat > 0 {
            let d = draw(lat);
            let end = i.now + d;
            if let Some(t) = timeout {
                if t.as_nanos() < u128::from(d) {
                    i.now += t.as_nanos() as u64;
                    return Err(err(ErrorKind::TimedOut));
                }
            }
            while i.step(Some(end)) {}
            i.now = end;
        } else {
            i.due();
        }
        let now = i.now;
        if let Some(k) = i.connect_errors.pop_front() {
            fault("connect_error");
            i.connects.push((addr, false, now));
            return Err(err(k));
        }
        let ok = match i.listeners.get(&addr) {
            Some(l) if l.ready <= now => Some((l.port, l.peer)),
            _ => None,
        };
        i.connects.push((addr, ok.is_some(), now));
        note(if ok.is_some() { b"conn" } else { b"refused" });
        tr!("[{now}] client connects to {addr}: {}", if ok.is_some() { "ok" } else { "refused" });
        let Some((port, peer)) = ok else {
            fault("connect_refused");
            let k = i.script.as_ref().map_or(ErrorKind::ConnectionRefused, |s| s.unready.0);
            return Err(err(k));
        };
        let id = i.next_id;
        i.next_id += 1;
        i.handles.insert(id, id);
        i.streams.insert(
            id,
            Stream {
                port,
                peer,
                addr,
                sent: Vec::new(),
                delivered: 0,
                creq: Parser::default(),
                creqs: Vec::new(),
                sreq: Parser::default(),
                c2s_t: now,
                rx: VecDeque::new(),
                consumed: 0,
                s2c_total: 0,
                s2c_t: now,
                fin: false,
                rst: false,
                rst_reported: false,
                peer_gone: false,
                shut_wr: false,
                shut_rd: false,
                closed: false,
                reply_ends: Vec::new(),
                pipelined: 0,
                cut_c2s: None,
                cut_s2c: None,
                write_err: None,
                write_zero_at: None,
                read_err: None,
                read_to: None,
            },
        );
        Ok(id)
    }
    fn read(&self, h: u64, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(h, buf, false)
    }
    fn peek(&self, h: u64, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(h, buf, true)
    }
    fn write(&self, h: u64, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        self.tick();
        let id = self.sid(h);
        let mut data: Vec<u8> = Vec::new();
        for b in bufs.iter().take(1024) {
            // a socket takes no more than its buffer at once
            let room = SEND_MAX - data.len();
            data.extend_from_slice(&b[..b.len().min(room)]);
        }
        {
            let mut i = self.i.borrow_mut();
            i.due();
            let e = i.net.eintr;
            if e > 0 && chance(e, 100) {
                fault("eintr_write");
                return Err(err(ErrorKind::Interrupted));
            }
        }
        loop {
            let mut g = self.i.borrow_mut();
            let i = &mut *g;
            let short = i.net.short_write;
            let window = i.net.window;
            let now = i.now;
            let s = i.streams.get_mut(&id).unwrap();
            if s.shut_wr || s.rst {
                return Err(err(ErrorKind::BrokenPipe));
            }
            if data.is_empty() {
                return Ok(0);
            }
            let mut n = data.len();
            if let Some((k, kind)) = s.write_err {
                if s.sent.len() >= k {
                    fault("write_error");
                    return Err(err(kind));
                }
                n = n.min(k - s.sent.len());
            }
            if let Some(k) = s.write_zero_at {
                if s.sent.len() >= k {
                    fault("write_zero");
                    return Ok(0);
                }
                n = n.min(k - s.sent.len());
            }
            if let Some(w) = window {
                let inflight = s.sent.len() - s.delivered;
                if inflight >= w {
                    // send buffer full: wait for the peer to take data
                    if !i.step(None) {
                        drop(g);
                        panic_any(SimHang("blocked forever writing".into()));
                    }
                    continue;
                }
                if n > w - inflight {
                    fault("backpressure");
                    n = w - inflight;
                }
            }
            if n > 1 && short > 0 && chance(short, 100) {
                fault("short_write");
                n = 1 + draw((n - 1) as u64) as usize;
            }
            // was a request begun before the previous answer was fully read?
            if s.creq.leftover() == 0 {
                let answered: Vec<&Req> = s.creqs.iter().filter(|r| r.has_answer()).collect();
                let outstanding = s.reply_ends.len() < answered.len()
                    || s.reply_ends.last().is_some_and(|e| s.consumed < *e);
                if outstanding {
                    s.pipelined += 1;
                }
            }
            s.sent.extend_from_slice(&data[..n]);
            let new = s.creq.feed(s.port, &data[..n]);
            s.creqs.extend(new);
            let base = s.c2s_t.max(now);
            let t = base + i.delay();
            i.streams.get_mut(&id).unwrap().c2s_t = t;
            i.at(t, Ev::C2s(id, n));
            return Ok(n);
        }
    }
    fn shutdown(&self, h: u64, how: Shutdown) -> io::Result<()> {
        self.tick();
        let id = self.sid(h);
        let mut i = self.i.borrow_mut();
        i.due();
        let s = i.streams.get_mut(&id).unwrap();
        if s.rst {
            s.shut_wr = true;
            s.shut_rd = true;
            return Err(err(ErrorKind::NotConnected));
        }
        if matches!(how, Shutdown::Write | Shutdown::Both) {
            s.shut_wr = true;
        }
        if matches!(how, Shutdown::Read | Shutdown::Both) {
            s.shut_rd = true;
        }
        note(b"shutdown");
        Ok(())
    }
    fn set_timeouts(
        &self,
        h: u64,
        read: Option<Option<Duration>>,
        _write: Option<Option<Duration>>,
    ) -> io::Result<()> {
        let id = self.sid(h);
        let mut i = self.i.borrow_mut();
        let s = i.streams.get_mut(&id).unwrap();
        if let Some(r) = read {
            s.read_to = r.map(|d| d.as_nanos() as u64);
        }
        Ok(())
    }
    fn peer_addr(&self, h: u64) -> io::Result<SocketAddr> {
        let id = self.sid(h);
        Ok(self.i.borrow().streams[&id].addr)
    }
    fn dup(&self, h: u64) -> io::Result<u64> {
        let id = self.sid(h);
        let mut i = self.i.borrow_mut();
        let n = i.next_id;
        i.next_id += 1;
        i.handles.insert(n, id);
        Ok(n)
    }
    fn close(&self, h: u64) {
        let mut i = self.i.borrow_mut();
        let Some(id) = i.handles.remove(&h) else { return };
        if !i.handles.values().any(|x| *x == id) {
            let s = i.streams.get_mut(&id).unwrap();
            s.closed = true;
            s.shut_rd = true;
            s.shut_wr = true;
        }
    }
    fn spawn(&self, program: &OsStr, args: &[OsString], cwd: Option<&Path>) -> io::Result<u64> {
        self.tick();
        let mut i = self.i.borrow_mut();
        i.spawns += 1;
        let sc = i.script.clone().expect("spawn script");
        if let Some(k) = sc.error {
            fault("spawn_error");
            return Err(err(k));
        }
        let now = i.now;
        let peer = i.add_peer();
        let pid = 1000 + i.procs.len() as u64;
        let cwd = cwd.map(|p| p.to_path_buf()).unwrap_or_else(|| PathBuf::from("/nowhere"));
        for (name, t, data) in &sc.files {
            i.files.entry(cwd.join(name)).or_default().push((now + t, data.clone()));
        }
        for (k, (port, num)) in
            [(Port::Tpm, sc.tpm_port), (Port::Plat, sc.plat_port)].into_iter().enumerate()
        {
            if let Some(t) = sc.listen[k] {
                i.listen(SocketAddr::new(sc.ip, num), port, peer, now + t, Some(pid));
            }
        }
        if let Some(c) = sc.crash {
            i.at(now + c, Ev::Exit(pid, true));
        }
        i.procs.insert(
            pid,
            Proc {
                alive: true,
                killed: false,
                kill_calls: 0,
                exited_by_itself: false,
                peer,
                cwd,
                program: program.into(),
                args: args.to_vec(),
                exit_delay: sc.exit_delay,
            },
        );
        note(b"spawn");
        tr!("[{now}] process {pid} spawned: {sc:?}");
        Ok(pid)
    }
    fn kill(&self, pid: u64) -> io::Result<()> {
        self.tick();
        let mut i = self.i.borrow_mut();
        i.due();
        note(b"kill");
        tr!("[{}] kill process {pid}", i.now);
        let p = i.procs.get_mut(&pid).expect("pid");
        p.kill_calls += 1;
        if p.alive {
            p.killed = true;
            i.proc_exit(pid, false);
        }
        Ok(())
    }
    fn wait(&self, pid: u64, block: bool) -> io::Result<Option<i32>> {
        self.tick();
        loop {
            let mut i = self.i.borrow_mut();
            i.due();
            let p = &i.procs[&pid];
            if !p.alive {
                return Ok(Some(if p.killed { 9 } else { 0 }));
            }
            if !block {
                return Ok(None);
            }
            if !i.step(None) {
                drop(i);
                panic_any(SimHang("waiting forever for the simulator process".into()));
            }
        }
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        self.tick();
        let mut i = self.i.borrow_mut();
        i.due();
        i.file_reads += 1;
        let now = i.now;
        let r = i
            .files
            .get(path)
            .and_then(|v| v.iter().filter(|(t, _)| *t <= now).max_by_key(|(t, _)| *t))
            .map(|(_, d)| d.clone());
        tr!("[{now}] client reads {}: {:?}", path.display(), r.as_ref().map(|d| String::from_utf8_lossy(d).into_owned()));
        match r {
            Some(d) => {
                note(if d.is_empty() { b"file-empty" } else { b"file" });
                if d.is_empty() {
                    fault("file_empty");
                }
                Ok(d)
            }
            None => {
                note(b"nofile");
                fault("file_missing");
                Err(err(i.script.as_ref().map_or(ErrorKind::NotFound, |s| s.unready.1)))
            }
        }
    }
    fn file_exists(&self, path: &Path) -> bool {
        let i = self.i.borrow();
        i.files.get(path).is_some_and(|v| v.iter().any(|(t, _)| *t <= i.now))
    }
    fn remove_file(&self, path: &Path) -> io::Result<()> {
        let mut i = self.i.borrow_mut();
        let now = i.now;
        if let Some(v) = i.files.get_mut(path) {
            v.retain(|(t, _)| *t > now);
        }
        Ok(())
    }
    fn sleep(&self, dur: Duration) {
        self.tick();
        self.advance(dur.as_nanos() as u64);
    }
    fn now(&self) -> Duration {
        self.tick();
        // reading the clock takes time, so that polling loops make progress
        self.advance(US);
        Duration::from_nanos(self.i.borrow().now)
    }
}
