//! C22: the project's client talks to the project's server through the real TCP connection inside
//! the simulated network. Clients, transport and server are all real code; network, processes,
//! clock, entropy and the random generator are simulated.

use super::*;
use crate::server::{self, Ev, Exp, Plat, Srv, plat, plats_reset, start};
use std::collections::BTreeSet;

/// Everything behind the response header.
struct Rest(Vec<u8>);
impl Marshalable for Rest {
    fn try_marshal(&self, _: &mut [u8]) -> MRes<usize> {
        Ok(0)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        let n = b.len();
        Ok(Rest(b.get(n).ok_or(MErr::UnexpectedEndOfBuffer)?.to_vec()))
    }
}
impl Wire for Rest {
    fn generate(_: &mut Vec<u8>) {}
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        *pos = b.len();
        true
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        if b[*pos..] != self.0[..] {
            return Err(format!("returned {}", hex(&self.0)));
        }
        *pos = b.len();
        Ok(())
    }
}
struct RawRandom(u16);
impl Marshalable for RawRandom {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        self.0.try_marshal(buf)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        u16::try_unmarshal(b).map(RawRandom)
    }
}
impl TpmCommand for RawRandom {
    const CMD_CODE: TpmCc = TpmCc(0x17b);
    type Handles = ();
    type RespT = Rest;
    type RespHandles = ();
}
impl Case for RawRandom {}
static RAW: CaseInfo = case!(RawRandom, 0x17b, Some(0), false, none);

struct Server {
    ctx: Box<dyn Srv>,
    in_place: bool,
    cap: usize,
    /// (request, response, platform events) of every command
    log: Vec<(Vec<u8>, Vec<u8>, Vec<Ev>)>,
}
impl Server {
    fn serve(&mut self, req: &[u8]) -> Vec<u8> {
        let c = server::Case { req: req.to_vec(), cap: self.cap };
        let Some(r) = server::exec(&mut *self.ctx, 0, &c, self.in_place, &Default::default()) else {
            return vec![];
        };
        let resp = r.after.get(..r.count).unwrap_or(&[]).to_vec();
        self.log.push((req.to_vec(), resp.clone(), r.events));
        resp
    }
}
type Shared = Rc<RefCell<Server>>;

fn attach(w: &Rc<World>, s: &Shared, ports: &mut u16) -> Option<Link> {
    let (a, b) = (*ports, *ports + 1);
    *ports += 2;
    let l = Link::open(w, a, b)?;
    let s = s.clone();
    w.i.borrow_mut().peers[l.peer].backend = Some(Box::new(move |_, req| s.borrow_mut().serve(req)));
    Some(l)
}
fn boot(kind: u64, in_place: bool, cap: usize) -> Option<Server> {
    match start(kind, 0)? {
        Ok(ctx) => Some(Server { ctx, in_place, cap, log: vec![] }),
        Err(e) => {
            fail("no-server", format!("the server did not start: {e}"));
            None
        }
    }
}

fn random_count() -> u16 {
    match draw(6) {
        0 => draw(4) as u16,
        1..=3 => draw(65) as u16,
        4 => draw(1000) as u16,
        _ => pick(&[255u16, 256, 257, 4085, 4086, 4087, 4096, 65535]),
    }
}
fn raw_call() -> Call {
    let ns = if chance(1, 5) { 1 + draw(3) } else { 0 };
    Call {
        case: &RAW,
        handles: vec![],
        sessions: (0..ns).map(|_| gen_session()).collect(),
        params: random_count().to_be_bytes().to_vec(),
        encodable: true,
        plain: ns == 0 && chance(1, 2),
        via: 0,
    }
}
fn library_random() -> Call {
    Call {
        case: &REALS[1],
        handles: vec![],
        sessions: vec![],
        params: random_count().to_be_bytes().to_vec(),
        encodable: true,
        plain: chance(1, 2),
        via: 0,
    }
}

fn c22() {
    let mut p = Plat::new(draw(1 << 40));
    if chance(1, 4) {
        p.interval = draw(4);
    }
    if chance(1, 5) {
        // the generator fails at drawn calls, but the server starts
        p.fail = (0..1 + draw(3)).map(|_| 1 + draw(12)).collect::<BTreeSet<u64>>();
    }
    plats_reset(vec![p]);
    let kind = draw(server::KINDS);
    let in_place = chance(1, 2);
    let cap = match draw(4) {
        0 => range(10, 200) as usize,
        1 => pick(&[10usize, 12, 74, 75, 4094, 4095, 4096]),
        _ => 4096,
    };
    // in place, the buffer has to take the longest command
    let cap = if in_place { cap.max(4096) } else { cap };
    let Some(s) = boot(kind, in_place, cap) else { return };
    let s: Shared = Rc::new(RefCell::new(s));
    let w = World::new(Net::calm());
    let g = w.enter();
    let level = draw(3);
    let net = Net::draw(level);
    w.i.borrow_mut().net = net;
    let mut ports = 2321;
    let mut links = Vec::new();
    for _ in 0..1 + weighted(&[4, 2, 1]) {
        let Some(l) = attach(&w, &s, &mut ports) else { return };
        links.push(l);
    }
    let steps = seldom_long(9);
    for _ in 0..steps {
        if failed() {
            break;
        }
        if chance(1, 12) {
            // the server process dies and is started again: every connection is lost
            fault("server_restart");
            for l in &links {
                let mut i = w.i.borrow_mut();
                i.force_reset(l.tpm);
                i.force_reset(l.plat);
            }
            let n = links.len();
            links.clear();
            let before = plat(0, |p| std::mem::take(&mut p.fail));
            let Some(fresh) = boot(kind, in_place, cap) else { break };
            plat(0, |p| p.fail = before);
            s.borrow_mut().ctx = fresh.ctx;
            for _ in 0..n {
                let Some(l) = attach(&w, &s, &mut ports) else { return };
                links.push(l);
            }
        }
        let k = draw(links.len() as u64) as usize;
        if links.len() > 1 {
            nontrivial();
        }
        let call = match weighted(&[4, 3, 3]) {
            0 => raw_call(),
            1 => library_random(),
            _ => {
                let c = gen_call(4);
                if !small_enough(&c) {
                    continue;
                }
                c
            }
        };
        let mut cut = false;
        if chance(1, 10) {
            // this connection is lost somewhere in this exchange
            cut = true;
            let l = &links[k];
            let mut i = w.i.borrow_mut();
            let t = i.streams.get_mut(&l.tpm).unwrap();
            let rst = chance(1, 2);
            if chance(1, 2) {
                let at = t.sent.len() + draw(40) as usize;
                t.cut_c2s = Some((at, rst));
            } else {
                let at = t.consumed + draw(60);
                t.cut_s2c = Some((at, rst));
            }
        }
        exchange(&mut links[k], &s, &call, cut);
        if cut {
            links.remove(k);
            let Some(l) = attach(&w, &s, &mut ports) else { break };
            links.push(l);
        }
    }
    drop(links);
    drop(g);
}

fn exchange(l: &mut Link, s: &Shared, call: &Call, cut: bool) {
    op_done();
    plan(|p| {
        p.asked.clear();
        p.checked.clear();
    });
    let Some(cmd) = encode_command(call) else { return };
    let (from, cap) = {
        let s = s.borrow();
        (s.log.len(), s.cap)
    };
    tr!("client: {} {}", call.case.name, hex(&cmd));
    note(&call.case.cc.to_be_bytes());
    let Some(out) = sut("run_command", || (call.case.tcp)(call, &mut l.conn)) else { return };
    tr!("  -> {}", out.as_ref().map(|_| "Ok".to_string()).unwrap_or_else(|e| format!("{e:?}")));
    if failed() {
        return;
    }
    let log = s.borrow().log[from..].to_vec();
    if cut {
        // the answer may have been lost, but it may not have been made up
        if let Err(ConnErr::Link(_)) = &out {
            probe("exchange_lost");
            return;
        }
    }
    if log.len() != 1 {
        fail("exchange-count", format!("{}: the server executed {} commands for one call", call.case.name, log.len()));
        return;
    }
    let (req, resp, events) = &log[0];
    ensure!(*req == cmd, "request-changed", "{}: the server received {} instead of {}", call.case.name, hex(req), hex(&cmd));
    if resp.len() < 10 {
        fail("no-response", format!("{}: the server answered {}", call.case.name, hex(resp)));
        return;
    }
    let rc = be(&resp[6..10]) as u32;
    let drawn: Vec<u8> = events.iter().filter_map(|e| if let Ev::Generate { out, ok: true, .. } = e { Some(out.clone()) } else { None }).flatten().collect();
    let broken = events.iter().any(|e| matches!(e, Ev::Generate { ok: false, .. } | Ev::Reseed { ok: false, .. }));
    let want = server::expect(&cmd, cap);
    if rc != 0 {
        match &want {
            Exp::Refuse(codes) => ensure!(codes.contains(&rc), "wrong-code", "{}: the server refused {} with {rc:#x}, not {codes:x?}", call.case.name, hex(&cmd)),
            _ => ensure!(broken && rc == 0x101, "refused", "{}: the server refused {} with {rc:#x}", call.case.name, hex(&cmd)),
        }
        match out {
            Err(ConnErr::Tss(c)) => ensure!(c == rc, "wrong-code", "{}: the server answered {rc:#x} but the client reported {c:#x}", call.case.name),
            Err(e) => fail("wrong-code", format!("{}: the server answered {rc:#x} but the client reported {e:?}", call.case.name)),
            Ok(_) => fail("wrong-code", format!("{}: the server answered {rc:#x} but the client call succeeded", call.case.name)),
        }
        probe("refusal_delivered");
        return;
    }
    let n = match want {
        Exp::Random(n) | Exp::Either(n) => n,
        Exp::Refuse(codes) => {
            fail("executed", format!("{}: the server executed {}, which it must refuse with {codes:x?}", call.case.name, hex(&cmd)));
            return;
        }
    };
    ensure!(drawn.len() == n && !broken, "wrong-data", "{n} bytes were requested and {} generated", drawn.len());
    let mut sized = (n as u16).to_be_bytes().to_vec();
    sized.extend_from_slice(&drawn);
    let body = &resp[10..];
    if call.case.name == "RawRandom" {
        match out {
            Ok(check) => {
                let ok = check(&[], &drawn).is_ok() || check(&[], &sized).is_ok();
                ensure!(ok, "wrong-data", "the server generated {} but the client returned something else", hex(&drawn));
                probe("random_delivered");
            }
            Err(e) => fail("spurious-error", format!("GetRandom({n}): the server answered {} but the client failed with {e:?}", hex(resp))),
        }
        return;
    }
    // The library's own GetRandom.
    let good = match &out {
        Ok(check) => check(&[], &sized).is_ok(),
        Err(_) => false,
    };
    if good {
        probe("random_delivered");
    } else if n > 64 && body == sized && out.is_err() {
        probe("more_than_a_digest");
    } else if body == drawn {
        // what the client makes of a response without the size field
        let fits = body.len() >= 2 && be(&body[..2]) as usize == body.len() - 2 && body.len() <= 66;
        let consistent = match &out {
            Ok(check) => fits && check(&[], body).is_ok(),
            Err(ConnErr::Tss(_)) => !fits,
            Err(_) => false,
        };
        ensure!(consistent, "wrong-data", "GetRandom({n}): the client misread {}", hex(resp));
        known("getrandom-without-size");
    } else {
        fail("wrong-data", format!("GetRandom({n}): the server generated {} and answered {}", hex(&drawn), hex(resp)));
    }
}

pub const C22: Prop = Prop {
    id: "C22",
    scenario: c22,
    quick: 3_600_000,
    thorough: 60_000_000,
    rule: "1-3 real clients with real TCP connections to one real server: 1-8 commands per run (raw and library GetRandom, unsupported commands with 0-3 sessions), drawn segmentation, delays, short and interrupted I/O, lost connections, server restarts, generator faults; non-trivial: a fault fired or several clients",
    real: &["tpm2-client run_command and TcpConnection", "tpm2-impl TpmContext", "tpm2-rs-base command and response codecs"],
    stub: &["sockets, clock", "TCG simulator framing around the server", "entropy source and random generator", "platform buffers"],
    assumptions: &["the harness carries commands from the TCP framing to TpmContext as a platform would"],
};
