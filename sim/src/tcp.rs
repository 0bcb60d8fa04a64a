//! Scenarios for the TCP connection and the simulator process (C01 - C07).

use crate::engine::*;
use crate::ops::*;
use crate::runner::Prop;
use crate::world::*;
use crate::{ensure, tr};
use std::io::ErrorKind;
use std::rc::Rc;
use tpm2_client::connection::TcpSimulator;

const REAL: &[&str] = &["tpm2-client connection::tcp (TcpConnection, TcpSimulator), unmodified except that its std is the simulated one"];
const STUB: &[&str] = &[
    "sockets, child processes, files, sleeping (discrete-event world with virtual clock)",
    "TCG simulator peer (independent model of the TPM-port and platform-port protocol)",
];

fn links(w: &Rc<World>, max: u64) -> Option<Vec<Link>> {
    let n = if chance(1, 3) { range(2, max) } else { 1 };
    let mut v = Vec::new();
    for k in 0..n {
        let (mut a, mut b) = (3000 + 10 * k as u16 + draw(3) as u16, 3005 + 10 * k as u16 + draw(3) as u16);
        if k == 0 {
            // the well-known ports, or one of them
            let d = draw(6);
            if d < 4 {
                a = 2321;
            }
            if d < 3 || d == 4 {
                b = 2322;
            }
        }
        v.push(Link::open(w, a, b)?);
    }
    for l in &v {
        let d = if chance(1, 20) { pick(&[60 * SEC, 3600 * SEC]) } else { pick(&[0, 0, MS, 2 * SEC]) };
        w.i.borrow_mut().peers[l.peer].service_delay = d;
    }
    Some(v)
}

/// After an honest history both ports of every connection must still be in step.
fn check_quiet(_w: &World, ls: &mut [Link]) {
    for l in ls {
        for op in [gen_transact(false, false), Op::Sizes] {
            if failed() {
                return;
            }
            l.run_honest(&op);
        }
    }
}

// ---------------------------------------------------------------------------------------------

fn c01() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    let calm = !chance(1, 2);
    if !calm {
        let n = Net::draw(1);
        w.i.borrow_mut().net = n;
    }
    let Some(mut ls) = links(&w, 3) else { return };
    let n = history(10);
    let big = n <= 10 && chance(1, 3);
    let mut transacts = 0;
    for _ in 0..n {
        let k = draw(ls.len() as u64) as usize;
        let op = match weighted(&[20, 4, 6, 1, 1]) {
            0 if calm && chance(1, 10_000) => gen_enormous(),
            0 => gen_transact(big, true),
            1 => Op::SetLocality(draw(if chance(1, 3) { 6 } else { 256 }) as u8),
            2 => gen_control(),
            3 => Op::Hcrtm(bytes(small_len())),
            _ => Op::Reinit,
        };
        if matches!(op, Op::Transact { .. }) {
            transacts += 1;
            if transacts > 1 {
                nontrivial();
            }
        }
        let refused = matches!(&op, Op::Transact { resp, room, .. } if resp.len() > *room);
        ls[k].run_honest(&op);
        if chance(1, 20_000) {
            nontrivial();
            ls[k].run_unrepresentable(false);
        }
        if failed() {
            return;
        }
        if refused {
            nontrivial();
            fault("response_exceeds_buffer");
        }
    }
    check_quiet(&w, &mut ls);
}

pub const C01: Prop = Prop {
    id: "C01",
    scenario: c01,
    quick: 900_000,
    thorough: 8_000_000,
    rule: "1-3 connections, 1-10 (rarely up to 400) operations (mostly commands of 0-70000 bytes with exact, roomy or too small buffers), drawn transport segmentation; non-trivial: more than one command, a transport fault or a refused response",
    real: REAL,
    stub: STUB,
    assumptions: &["the peer keeps to the TCG simulator protocol in this check; C03 covers peers that do not"],
};

// ---------------------------------------------------------------------------------------------

fn gen_any() -> Op {
    match weighted(&[5, 6, 2, 1]) {
        0 => gen_transact(chance(1, 3), true),
        1 => gen_control(),
        2 => Op::Hcrtm(bytes(if chance(1, 3) { payload_len() } else { small_len() })),
        _ => Op::Reinit,
    }
}

fn c02() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    let net = Net::draw(1);
    w.i.borrow_mut().net = net;
    let Some(mut ls) = links(&w, 2) else { return };
    let n = history(7);
    for _ in 0..n {
        let k = draw(ls.len() as u64) as usize;
        let op = if n > 60 { gen_control() } else { gen_any() };
        ls[k].run_honest(&op);
        if failed() {
            return;
        }
    }
    check_quiet(&w, &mut ls);
    for l in ls.iter_mut() {
        if chance(1, 3) {
            let op = if chance(1, 2) { Op::Stop } else { Op::SessionEnd };
            l.run_honest(&op);
        }
    }
}

pub const C02: Prop = Prop {
    id: "C02",
    scenario: c02,
    quick: 900_000,
    thorough: 8_000_000,
    rule: "1-2 connections, 1-7 (rarely up to 400) operations of every kind under a drawn mix of short reads, short writes, EINTR, segmentation, delays up to 20 hours and back-pressure; non-trivial: at least one such event happened",
    real: REAL,
    stub: STUB,
    assumptions: &["blocking sockets without timeouts, as the code configures them"],
};

// ---------------------------------------------------------------------------------------------

/// "No success without the complete honest answer" for one finished operation.
fn judge_success(l: &Link, op: &Op, m: &Mark, out: &Out) {
    let Out::Ok(v) = out else { return };
    if matches!(op, Op::SetLocality(_) | Op::SessionEnd | Op::Stop) {
        return;
    }
    // requests of an earlier, failed operation may still arrive on the other port
    let mut ex = l.exchanges(m);
    ex.retain(|e| e.port == op.port());
    let want = op.requests(l.locality);
    let got: Vec<(Port, Req)> = ex.iter().map(|e| (e.port, e.req.clone())).collect();
    if got != want {
        fail("fabricated-success", format!("{}: success although the simulator received {} instead of {}", op.name(), show_reqs(&got), show_reqs(&want)));
        return;
    }
    if let Some(e) = ex.iter().find(|e| e.lied) {
        fail("fabricated-success", format!("{}: success although the answer to {} was malformed", op.name(), e.req.short()));
        return;
    }
    // all answers of these exchanges must have been received in full
    let i = l.w.i.borrow();
    for (port, id) in [(Port::Tpm, l.tpm), (Port::Plat, l.plat)] {
        let s = &i.streams[&id];
        if ex.iter().any(|e| e.port == port) {
            let end = s.reply_ends.last().copied().unwrap_or(0);
            ensure!(s.consumed >= end, "fabricated-success", "{}: success although only {} of {} answer bytes arrived", op.name(), s.consumed, end);
        }
    }
    if let Op::Transact { resp, room, .. } = op {
        ensure!(resp.len() <= *room, "too-small-ok", "success although the response does not fit");
    }
    let w = value_of(op, ex.last());
    ensure!(*v == w, "wrong-result", "{}: returned {} but the simulator answered {}", op.name(), show(v), show(&w));
}

fn nonzero(op: &mut Op) {
    if let Op::Transact { resp, .. } = op {
        resp.iter_mut().for_each(|b| {
            if *b == 0 {
                *b = 0x5a
            }
        });
    }
}

const ERRS: [ErrorKind; 8] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::NotConnected,
    ErrorKind::HostUnreachable,
];

fn c03() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    if chance(1, 2) {
        let n = Net::draw(1);
        w.i.borrow_mut().net = n;
    }
    let Some(mut ls) = links(&w, 2) else { return };
    let faulty = draw(ls.len() as u64) as usize;
    let before = draw(4);
    for _ in 0..before {
        let k = draw(ls.len() as u64) as usize;
        let op = gen_any();
        ls[k].run_honest(&op);
        if failed() {
            return;
        }
    }
    // the fault lands inside this operation
    let mut op = match weighted(&[6, 6, 2, 2]) {
        0 => gen_transact(chance(1, 4), true),
        1 => gen_control(),
        2 => Op::Hcrtm(bytes(small_len())),
        _ => Op::Reinit,
    };
    nonzero(&mut op);
    let l = &mut ls[faulty];
    let id = if op.port() == Port::Tpm { l.tpm } else { l.plat };
    let steps = op.requests(0).len().max(1) as u64;
    let mut dead = false;
    let kind = draw(8);
    {
        let mut i = w.i.borrow_mut();
        let sent = i.streams[&id].sent.len();
        let consumed = i.streams[&id].consumed;
        let alen = (op.answer_len() as u64 * steps).max(1);
        let rlen = (op.request_len() as u64).max(1);
        match kind {
            0 => i.peers[l.peer].lie = Some((draw(steps) as u32, Lie::Terminator(1 + draw(u32::MAX as u64) as u32))),
            1 => i.peers[l.peer].lie = Some((draw(steps) as u32, Lie::Terminator(pick(&[1, 0x100, 0x1_0000, 0x0100_0000, 0x8000_0000, u32::MAX])))),
            2 => {
                let true_len = match &op {
                    Op::Transact { resp, .. } => resp.len() as u32,
                    _ => 16,
                };
                let mut x = match draw(6) {
                    5 => true_len.wrapping_add(1 << pick(&[8, 16, 24, 31])),
                    0 => true_len.wrapping_add(1),
                    1 => true_len.wrapping_sub(1),
                    2 => draw(true_len as u64 + 1) as u32,
                    3 => int(32) as u32,
                    _ => true_len.wrapping_add(draw(64) as u32),
                };
                if x == true_len {
                    x = x.wrapping_add(4);
                }
                i.peers[l.peer].lie = Some((draw(steps) as u32, Lie::Length(x)));
                dead = true;
            }
            3 => {
                let rst = chance(1, 2);
                i.peers[l.peer].lie = Some((draw(steps) as u32, Lie::Truncate(draw(op.answer_len().max(1) as u64) as usize, rst)));
            }
            4 => {
                let k = sent as u64 + draw(rlen);
                let rst = chance(1, 2);
                i.streams.get_mut(&id).unwrap().cut_c2s = Some((k as usize, rst));
            }
            5 => {
                let k = consumed + draw(alen);
                let rst = chance(1, 2);
                i.streams.get_mut(&id).unwrap().cut_s2c = Some((k, rst));
            }
            6 => {
                let k = sent as u64 + draw(rlen);
                if chance(1, 3) {
                    i.streams.get_mut(&id).unwrap().write_zero_at = Some(k as usize);
                } else {
                    i.streams.get_mut(&id).unwrap().write_err = Some((k as usize, pick(&ERRS)));
                }
            }
            _ => i.streams.get_mut(&id).unwrap().read_err = Some((consumed + draw(alen), pick(&ERRS))),
        }
    }
    tr!("fault kind {kind} on link {faulty}");
    let after = draw(4);
    let mut todo = vec![op];
    for _ in 0..after {
        let mut o = gen_any();
        nonzero(&mut o);
        todo.push(o);
    }
    for (n, op) in todo.into_iter().enumerate() {
        let k = if n == 0 { faulty } else { draw(ls.len() as u64) as usize };
        if k != faulty {
            ls[k].run_honest(&op);
        } else {
            let l = &mut ls[k];
            if let Op::Transact { resp, .. } = &op {
                let mut i = w.i.borrow_mut();
                i.peers[l.peer].planned.clear();
                i.peers[l.peer].planned.push_back(resp.clone());
            }
            let m = l.mark();
            let out = exec(&mut l.conn, &op);
            if let Op::SetLocality(x) = &op {
                l.locality = *x;
            }
            judge_success(l, &op, &m, &out);
            if n == 0 && out.is_err() {
                probe("failed_as_required");
            }
        }
        if failed() {
            return;
        }
        if dead && n == 0 {
            // a wrong length leaves an unframed stream: nothing is claimed about it afterwards
            return;
        }
    }
}

pub const C03: Prop = Prop {
    id: "C03",
    scenario: c03,
    quick: 2_400_000,
    thorough: 30_000_000,
    rule: "honest prefix, then one operation with a fault inside it (lost connection at a drawn byte of request or answer, reset, bad terminator, bad length, socket error, write returning 0), then more operations; non-trivial: the fault fired",
    real: REAL,
    stub: STUB,
    assumptions: &["after an answer with a wrong length prefix the connection is not used again"],
};

// ---------------------------------------------------------------------------------------------

fn c04() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    if chance(1, 3) {
        let n = Net::draw(1);
        w.i.borrow_mut().net = n;
    }
    let Some(mut ls) = links(&w, 3) else { return };
    let n = history(14);
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..n {
        let k = draw(ls.len() as u64) as usize;
        let op = match weighted(&[12, 3, 1, 1]) {
            0 => gen_control(),
            1 => gen_transact(false, true),
            2 => Op::Hcrtm(bytes(small_len())),
            _ => Op::Reinit,
        };
        kinds.insert(op.name());
        if kinds.len() > 1 {
            nontrivial();
        }
        ls[k].run_honest(&op);
        if failed() {
            return;
        }
    }
    check_quiet(&w, &mut ls);
}

pub const C04: Prop = Prop {
    id: "C04",
    scenario: c04,
    quick: 1_500_000,
    thorough: 12_000_000,
    rule: "1-3 connections, 1-14 (rarely up to 400) mostly control and platform operations with drawn arguments and drawn answers; non-trivial: at least two kinds of operation or a transport fault",
    real: REAL,
    stub: STUB,
    assumptions: &["the two size fields of the size statistics are in host byte order, as the TCG simulator sends them"],
};

// ---------------------------------------------------------------------------------------------

fn c05() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    if chance(1, 2) {
        let n = Net::draw(1);
        w.i.borrow_mut().net = n;
    }
    let Some(mut l) = Link::open(&w, 2321, 2322) else { return };
    let d = if chance(1, 20) { 900 * SEC } else { pick(&[0, MS, 2 * SEC]) };
    w.i.borrow_mut().peers[l.peer].service_delay = d;
    for _ in 0..draw(3) {
        let op = gen_control();
        l.run_honest(&op);
    }
    if chance(1, 5000) {
        nontrivial();
        l.run_unrepresentable(true);
    }
    if failed() {
        return;
    }
    let op = match weighted(&[4, 4, 2, 2]) {
        0 => Op::Hcrtm(bytes(if chance(1, 4) { payload_len() } else { small_len() })),
        1 => Op::Reinit,
        2 => Op::SessionEnd,
        _ => Op::Stop,
    };
    let seq = op.requests(l.locality);
    let ending = matches!(op, Op::SessionEnd | Op::Stop);
    let m = l.mark();
    // what goes wrong, if anything
    let mut bad_step: Option<usize> = None;
    let kind = draw(6);
    {
        let mut i = w.i.borrow_mut();
        if ending {
            if kind >= 1 {
                nontrivial();
                let id = if chance(1, 2) { l.tpm } else { l.plat };
                let sent = i.streams[&id].sent.len();
                let s = i.streams.get_mut(&id).unwrap();
                match kind {
                    1 | 2 => s.write_err = Some((sent + draw(4) as usize, pick(&ERRS))),
                    3 => s.write_zero_at = Some(sent + draw(4) as usize),
                    _ => {}
                }
                if kind == 4 {
                    // the simulator has already reset this connection
                    i.force_reset(id);
                }
            }
        } else {
            let id = if op.port() == Port::Tpm { l.tpm } else { l.plat };
            let k = draw(seq.len() as u64) as usize;
            let sent = i.streams[&id].sent.len();
            match kind {
                0 => {}
                1 => {
                    let t = pick(&[1, 0x8000_0000, u32::MAX]);
                    i.peers[l.peer].lie = Some((k as u32, Lie::Terminator(t)));
                    bad_step = Some(k);
                }
                2 | 3 => {
                    let (b, rst) = (draw(4) as usize, chance(1, 2));
                    i.peers[l.peer].lie = Some((k as u32, Lie::Truncate(b, rst)));
                    bad_step = Some(k);
                }
                4 => {
                    let at = sent + draw(op.request_len() as u64) as usize;
                    i.streams.get_mut(&id).unwrap().write_err = Some((at, pick(&ERRS)));
                    bad_step = Some(usize::MAX);
                }
                _ => {
                    let at = sent + draw(op.request_len() as u64) as usize;
                    let rst = chance(1, 2);
                    i.streams.get_mut(&id).unwrap().cut_c2s = Some((at, rst));
                    bad_step = Some(usize::MAX);
                }
            }
        }
    }
    let out = exec(&mut l.conn, &op);
    if failed() {
        return;
    }
    let (got, _) = l.written(&m);
    let i = w.i.borrow();
    let (t, p) = (&i.streams[&l.tpm], &i.streams[&l.plat]);
    if ending {
        let code = seq[0].1.clone();
        ensure!(got.iter().all(|(_, r)| *r == code), "bad-request", "{}: wrote {}", op.name(), show_reqs(&got));
        for port in [Port::Tpm, Port::Plat] {
            ensure!(got.iter().filter(|g| g.0 == port).count() <= 1, "bad-request", "{}: code sent twice on the {port:?} port", op.name());
        }
        if out.is_ok() {
            ensure!(got == seq, "missing-code", "{}: success although only {} was sent", op.name(), show_reqs(&got));
            ensure!(t.shut_wr || t.closed, "not-closed", "{}: success but the TPM stream is still open", op.name());
            ensure!(p.shut_wr || p.closed, "not-closed", "{}: success but the platform stream is still open", op.name());
        } else {
            ensure!(kind != 0, "spurious-error", "{}: failed on healthy connections", op.name());
        }
    } else {
        // only the operation's own port is used, in order, never past a failure
        ensure!(got.iter().all(|g| g.0 == op.port()), "bad-request", "{}: wrote {}", op.name(), show_reqs(&got));
        ensure!(got.len() <= seq.len() && got[..] == seq[..got.len()], "order", "{}: wrote {} instead of a prefix of {}", op.name(), show_reqs(&got), show_reqs(&seq));
        let s = if op.port() == Port::Tpm { t } else { p };
        ensure!(s.pipelined == 0, "order", "{}: a step was sent before the previous one was acknowledged", op.name());
        match bad_step {
            None => {
                ensure!(out.is_ok(), "spurious-error", "{}: failed although every step was acknowledged: {out:?}", op.name());
                ensure!(got == seq, "order", "{}: success but only {} was sent", op.name(), show_reqs(&got));
            }
            Some(k) => {
                ensure!(out.is_err(), "fabricated-success", "{}: success although a step failed", op.name());
                if k != usize::MAX {
                    ensure!(got.len() <= k + 1 && s.creq.leftover() == 0, "continued", "{}: step {} was sent after step {k} had failed", op.name(), got.len());
                } else {
                    // connection lost during some request: nothing may follow the failed step
                    let acked = i.peers[l.peer].log[m.log..].len();
                    ensure!(got.len() <= acked + 1, "continued", "{}: {} steps were sent but only {acked} acknowledged", op.name(), got.len());
                }
            }
        }
    }
}

pub const C05: Prop = Prop {
    id: "C05",
    scenario: c05,
    quick: 3_600_000,
    thorough: 30_000_000,
    rule: "one H-CRTM sequence, re-initialisation, session end or stop after a drawn prefix, with a failing acknowledgement, lost connection or write error at a drawn step or byte; non-trivial: a fault fired",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};

// ---------------------------------------------------------------------------------------------

struct Plan {
    script: SpawnScript,
    must_succeed: bool,
    never: bool,
    ip: String,
    args: Vec<String>,
    cwd: String,
    bin: String,
}

fn draw_plan() -> Plan {
    const WIN: Ns = 2_800 * MS;
    let ip: std::net::IpAddr = pick(&["127.0.0.1", "127.0.0.9", "10.1.2.3", "::1"]).parse().unwrap();
    let tp = range(1, 65535) as u16;
    let mut pp = range(1, 65535) as u16;
    if tp == pp {
        pp = if tp == 65535 { 1 } else { tp + 1 };
    }
    let text = |p: u16| -> Vec<u8> {
        match draw(5) {
            0 => format!("{p}"),
            1 => format!("{p}\n"),
            2 => format!("{p}\r\n"),
            3 => format!(" {p} \n"),
            _ => format!("{p}\n\n"),
        }
        .into_bytes()
    };
    let mode = weighted(&[10, 3, 1, 1, 1, 1, 1, 1]);
    let when = || if chance(1, 3) { 0 } else { draw(WIN) };
    let slack = if mode == 1 { SEC } else { 0 };
    let mut f1 = Some(when() + if mode == 1 { draw(slack) } else { 0 });
    let mut f2 = Some(if chance(1, 3) { draw(f1.unwrap() + 1) } else { f1.unwrap() + when() });
    let base = f1.unwrap().max(f2.unwrap());
    let mut l1 = Some(if chance(1, 2) { draw(base + 1) } else { base + when() });
    let mut l2 = Some(if chance(1, 2) { draw(base + 1) } else { base + when() });
    if mode == 1 {
        // around the edge of the window: either result is acceptable
        l2 = l2.map(|x| x + draw(SEC));
    }
    let (t1, t2) = (text(tp), text(pp));
    let mut garbage = None;
    let mut crash = None;
    let mut error = None;
    match mode {
        0 | 1 => {}
        2 => f1 = None,
        3 => f2 = None,
        4 => l1 = None,
        5 => l2 = None,
        6 => {
            let g = pick(&["abc", "99999", "-1", "", "12 34", "\u{0}"]);
            garbage = Some((draw(2), g));
        }
        _ => {
            if chance(1, 3) {
                error = Some(pick(&[ErrorKind::NotFound, ErrorKind::PermissionDenied]));
            } else {
                crash = Some(draw(6 * SEC));
            }
        }
    }
    let mut files: Vec<(String, Ns, Vec<u8>)> = Vec::new();
    for (k, (name, t, data)) in
        [("command.port", f1, t1), ("platform.port", f2, t2)].into_iter().enumerate()
    {
        let Some(t) = t else { continue };
        if chance(1, 3) {
            // created first, written later
            let e = draw(t + 1);
            if e < t {
                files.push((name.into(), e, Vec::new()));
            }
        }
        let data = match garbage {
            Some((g, s)) if g == k as u64 => s.as_bytes().to_vec(),
            _ => data,
        };
        files.push((name.into(), t, data));
    }
    let args = (0..draw(if chance(1, 10) { 9 } else { 3 }))
        .map(|k| match draw(6) {
            0 => String::new(),
            1 => pick(&["-rm", "--", "a b", " ", "-a0", "*", "$x", "\u{e9}"]).to_string(),
            _ => format!("-a{k}{}", draw(100)),
        })
        .collect();
    let unready = (
        if chance(2, 3) { ErrorKind::ConnectionRefused } else { pick(&[ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::NetworkUnreachable, ErrorKind::AddrNotAvailable, ErrorKind::Interrupted]) },
        if chance(3, 4) { ErrorKind::NotFound } else { pick(&[ErrorKind::PermissionDenied, ErrorKind::ResourceBusy]) },
    );
    Plan {
        script: SpawnScript {
            error,
            files,
            tpm_port: tp,
            plat_port: pp,
            listen: [l1, l2],
            crash,
            ip,
            exit_delay: pick(&[0, MS, 500 * MS]),
            unready,
        },
        must_succeed: mode == 0,
        never: (2..=6).contains(&mode) || error.is_some(),
        ip: ip.to_string(),
        args,
        cwd: format!("/sim/work{}", draw(10)),
        bin: format!("/sim/bin{}", draw(10)),
    }
}

fn start(w: &Rc<World>, p: &Plan) -> Option<std::io::Result<TcpSimulator>> {
    w.i.borrow_mut().script = Some(p.script.clone());
    note(b"start");
    op_done();
    sut("TcpSimulator::new", || TcpSimulator::new(&p.bin, &p.args, &p.cwd, &p.ip))
}

fn c06() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    if chance(1, 3) {
        let mut n = Net::draw(1);
        n.connect_latency = pick(&[0, MS, 20 * MS]);
        w.i.borrow_mut().net = n;
    }
    let p = draw_plan();
    let t0 = w.now_ns();
    let Some(r) = start(&w, &p) else { return };
    let took = w.now_ns() - t0;
    tr!("start took {} ms: {}", took / MS, match &r { Ok(_) => "Ok".to_string(), Err(e) => format!("{e}") });
    note(if r.is_ok() { b"ok" } else { b"err" });
    {
        let i = w.i.borrow();
        ensure!(i.spawns == 1, "spawn", "the simulator was started {} times", i.spawns);
        if let Some(pr) = i.procs.values().next() {
            let args: Vec<String> = pr.args.iter().map(|a| a.to_string_lossy().into_owned()).collect();
            ensure!(pr.program.to_string_lossy() == p.bin && args == p.args && pr.cwd.to_string_lossy() == p.cwd, "spawn", "started {:?} {:?} in {:?} instead of {} {:?} in {}", pr.program, args, pr.cwd, p.bin, p.args, p.cwd);
        }
        for (a, _, _) in &i.connects {
            ensure!(a.ip() == p.script.ip && (a.port() == p.script.tpm_port || a.port() == p.script.plat_port), "wrong-port", "connected to {a}, the published ports are {} and {}", p.script.tpm_port, p.script.plat_port);
        }
    }
    ensure!(took <= 30 * SEC, "too-slow", "start-up took {} s", took / SEC);
    if p.must_succeed {
        nontrivial();
        probe("came_up_in_time");
        if let Err(e) = &r {
            fail("gave-up", format!("start-up failed with \"{e}\" although the simulator came up in time"));
        }
    }
    if p.never {
        nontrivial();
        probe("never_ready");
        ensure!(r.is_err(), "false-start", "start-up succeeded although the simulator was never ready");
    }
    if failed() {
        drop(r);
        return;
    }
    if let Ok(mut s) = r {
        // the connection really is to the two published ports
        if p.script.crash.is_none() {
            let peer = w.i.borrow().procs.values().next().map(|p| p.peer);
            let Some(peer) = peer else { return };
            let resp = bytes(12);
            w.i.borrow_mut().peers[peer].planned.push_back(resp.clone());
            let ops = [Op::Transact { cmd: bytes(10), resp, room: 64 }, Op::Sizes];
            for op in &ops {
                let n = w.i.borrow().peers[peer].log.len();
                let out = exec(s.connection_mut(), op);
                if failed() {
                    return;
                }
                let i = w.i.borrow();
                let e = i.peers[peer].log.get(n);
                let ok = matches!((&out, e), (Out::Ok(v), Some(e)) if *v == value_of(op, Some(e)) && e.port == op.port());
                ensure!(ok, "wrong-port", "{} after start-up: {out:?}, simulator saw {:?}", op.name(), e.map(|e| (e.port, e.req.short())));
            }
        }
        sut("drop", || drop(s));
    }
}

pub const C06: Prop = Prop {
    id: "C06",
    scenario: c06,
    quick: 6_000_000,
    thorough: 60_000_000,
    rule: "one start-up with drawn times at which each port file appears, is written, and each port listens (in time, at the edge, never, garbage, crash, spawn failure); non-trivial: must-succeed or never-ready timing",
    real: REAL,
    stub: STUB,
    assumptions: &["fresh working directory: no port files of an earlier run; a port file is empty or complete, never half a number"],
};

// ---------------------------------------------------------------------------------------------

fn c07() {
    let w = World::new(Net::calm());
    let _g = w.enter();
    if chance(1, 3) {
        let mut n = Net::draw(1);
        n.connect_latency = pick(&[0, MS, 20 * MS]);
        w.i.borrow_mut().net = n;
    }
    let p = draw_plan();
    let Some(r) = start(&w, &p) else { return };
    let pid = w.i.borrow().procs.keys().next().copied();
    let judge = |when: &str, dropped: bool| {
        let Some(pid) = pid else { return };
        let i = w.i.borrow();
        let pr = &i.procs[&pid];
        let told = [Port::Tpm, Port::Plat].iter().all(|port| {
            i.streams_of(pr.peer, *port).iter().any(|s| i.streams[s].creqs.contains(&Req::Stop))
        });
        ensure!(pr.kill_calls > 0 || !pr.alive || told, if dropped { "left-running" } else { "leaked" }, "{when}: the simulator process is neither told to stop on both ports nor killed");
        drop(i);
        // everything on its way arrives: the process must be gone
        w.settle(400 * 24 * 3600 * SEC);
        let i = w.i.borrow();
        ensure!(!i.procs[&pid].alive, "left-running", "{when}: the simulator process never stops");
    };
    let mut s = match r {
        Err(e) => {
            note(b"err");
            tr!("start-up failed: {e}");
            if pid.is_some() {
                nontrivial();
                fault("startup_failed");
                judge("after start-up failed", false);
            }
            return;
        }
        Ok(s) => s,
    };
    let pid = pid.expect("process");
    note(b"started");
    let peer = w.i.borrow().procs[&pid].peer;
    let mut asked = false;
    let check_alive = |asked: bool, what: &str| {
        let i = w.i.borrow();
        ensure!(asked || i.procs[&pid].kill_calls == 0, "killed-while-in-use", "{what}: the process was killed although nobody asked");
    };
    check_alive(false, "start-up");
    let n = draw(5);
    for _ in 0..n {
        if failed() {
            break;
        }
        match weighted(&[6, 2, 2, 2, 2, 1]) {
            0 => {
                let op = gen_any();
                if let Op::Transact { resp, .. } = &op {
                    w.i.borrow_mut().peers[peer].planned.push_back(resp.clone());
                }
                exec(s.connection_mut(), &op);
                check_alive(asked, op.name());
            }
            1 => {
                // the connection breaks, the process stays
                let mut i = w.i.borrow_mut();
                let port = if chance(1, 2) { Port::Tpm } else { Port::Plat };
                let id = *i.streams_of(peer, port).last().unwrap();
                nontrivial();
                fault("connection_lost_process_alive");
                i.force_reset(id);
            }
            2 => {
                let id = {
                    let i = w.i.borrow();
                    *i.streams_of(peer, if chance(1, 2) { Port::Tpm } else { Port::Plat }).last().unwrap()
                };
                let mut i = w.i.borrow_mut();
                let sent = i.streams[&id].sent.len();
                let at = (sent + draw(6) as usize, pick(&ERRS));
                // a broken socket stays broken
                i.streams.get_mut(&id).unwrap().write_err.get_or_insert(at);
                nontrivial();
            }
            3 => {
                exec(s.connection_mut(), &Op::SessionEnd);
                check_alive(asked, "session_end");
            }
            4 => {
                asked = true;
                note(b"stop");
                if chance(1, 2) {
                    sut("stop", || s.stop());
                } else {
                    sut("stop_nicely", || s.stop_nicely());
                }
            }
            _ => w.advance(draw(5 * SEC)),
        }
    }
    if failed() {
        sut("drop", || drop(s));
        return;
    }
    check_alive(asked, "in use");
    note(b"drop");
    tr!("drop");
    nontrivial();
    sut("drop", || drop(s));
    judge("after the simulator object was dropped", true);
}

pub const C07: Prop = Prop {
    id: "C07",
    scenario: c07,
    quick: 6_000_000,
    thorough: 60_000_000,
    rule: "start-up with drawn readiness or failure, then operations, broken connections, session end, stop, then drop; non-trivial: start-up failed after the process existed, or the object was dropped",
    real: REAL,
    stub: STUB,
    assumptions: &["the process model exits some time after it receives a stop code and when killed"],
};
