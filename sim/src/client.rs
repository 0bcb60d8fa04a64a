//! Scenarios for the client library (C08 - C13): commands, sessions and responses.
//!
//! The real `run_command*` functions run against a simulated TPM, either through an in-memory
//! connection or through the real TCP connection inside the simulated network. Commands and
//! responses are encoded and parsed by an independent reference below.

use crate::engine::*;
use crate::ops::{Link, seldom_long};
use crate::runner::Prop;
use crate::wire::*;
use crate::world::*;
use crate::{ensure, tr};
use std::cell::RefCell;
use std::fmt;
use std::io::ErrorKind;
use std::rc::Rc;
use tpm2_client::connection::{Connection, TcpConnection};
use tpm2_client::sessions::{AuthorizationArea, AuthorizationArea1Plus, AuthorizationArea2Plus, PasswordSession, Session};
use tpm2_client::{get_capability, run_command, run_command_with_handles};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::{ErrorPosition, ErrorType, TpmRcError, TssError, TssResult, TssTcsError, TssTddlError, TssTspError};
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error as MErr, Marshalable, Result as MRes, UnmarshalBuf};

const MAX: usize = 4096;

// ------------------------------------------------------------------ dynamic command contents

/// One parameter of a simulated vendor command.
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Int(u64, usize),
    Sized(Vec<u8>),
    Raw(Vec<u8>),
    /// A value that has no encoding.
    Broken(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Int(usize),
    Sized,
    Raw(usize),
}

#[derive(Default)]
struct Plan {
    items: Vec<Item>,
    shape: Vec<Kind>,
    rhandles: usize,
    /// sessions asked for their authorization, and (session, nonce, attributes, hmac) to validate
    asked: Vec<usize>,
    checked: Vec<(usize, Auth)>,
}
thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }
fn plan<R>(f: impl FnOnce(&mut Plan) -> R) -> R {
    PLAN.with(|p| f(&mut p.borrow_mut()))
}

impl Item {
    fn encode(&self, o: &mut Vec<u8>) -> bool {
        match self {
            Item::Int(v, n) => o.extend_from_slice(&v.to_be_bytes()[8 - n..]),
            Item::Sized(b) => {
                o.extend_from_slice(&(b.len() as u16).to_be_bytes());
                o.extend_from_slice(b);
            }
            Item::Raw(b) => o.extend_from_slice(b),
            Item::Broken(_) => return false,
        }
        true
    }
    fn marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        match self {
            Item::Int(v, 1) => (*v as u8).try_marshal(buf),
            Item::Int(v, 2) => (*v as u16).try_marshal(buf),
            Item::Int(v, 4) => (*v as u32).try_marshal(buf),
            Item::Int(v, _) => v.try_marshal(buf),
            Item::Broken(0) => Err(MErr::UnknownSelector),
            Item::Broken(n) => {
                TpmsPcrSelection { hash: TpmiAlgHash(0xb), sizeof_select: 4 + *n, pcr_select: [1, 2, 3, 4] }.try_marshal(buf)
            }
            i => {
                let mut o = Vec::new();
                i.encode(&mut o);
                let dst = buf.get_mut(..o.len()).ok_or(MErr::UnexpectedEndOfBuffer)?;
                dst.copy_from_slice(&o);
                Ok(o.len())
            }
        }
    }
}

/// A vendor command with parameters and response drawn at run time.
struct SimCmd<const CC: u32>(Vec<Item>);
impl<const CC: u32> Marshalable for SimCmd<CC> {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        let mut n = 0;
        for i in &self.0 {
            n += i.marshal(&mut buf[n..])?;
        }
        Ok(n)
    }
    fn try_unmarshal(_: &mut UnmarshalBuf) -> MRes<Self> {
        Ok(SimCmd(plan(|p| p.items.clone())))
    }
}
impl<const CC: u32> TpmCommand for SimCmd<CC> {
    const CMD_CODE: TpmCc = TpmCc(CC);
    type Handles = Handles;
    type RespT = Resp;
    type RespHandles = RespHandles;
}

#[derive(Default, Debug)]
struct Handles(Vec<u32>);
impl Marshalable for Handles {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        let mut n = 0;
        for h in &self.0 {
            n += h.try_marshal(&mut buf[n..])?;
        }
        Ok(n)
    }
    fn try_unmarshal(_: &mut UnmarshalBuf) -> MRes<Self> {
        Ok(Handles(vec![]))
    }
}

struct RespHandles(Vec<u32>);
impl Marshalable for RespHandles {
    fn try_marshal(&self, _: &mut [u8]) -> MRes<usize> {
        Ok(0)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        (0..plan(|p| p.rhandles)).map(|_| u32::try_unmarshal(b)).collect::<MRes<_>>().map(RespHandles)
    }
}
impl Wire for RespHandles {
    fn generate(o: &mut Vec<u8>) {
        (0..plan(|p| p.rhandles)).for_each(|_| u32::generate(o))
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        (0..plan(|p| p.rhandles)).all(|_| u32::parse(b, pos))
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        self.0.iter().try_for_each(|h| h.check(b, pos))
    }
}

struct Resp(Vec<Item>);
impl Marshalable for Resp {
    fn try_marshal(&self, _: &mut [u8]) -> MRes<usize> {
        Ok(0)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        let mut v = Vec::new();
        for k in plan(|p| p.shape.clone()) {
            v.push(match k {
                Kind::Int(1) => Item::Int(u8::try_unmarshal(b)?.into(), 1),
                Kind::Int(2) => Item::Int(u16::try_unmarshal(b)?.into(), 2),
                Kind::Int(4) => Item::Int(u32::try_unmarshal(b)?.into(), 4),
                Kind::Int(n) => Item::Int(u64::try_unmarshal(b)?, n),
                Kind::Sized => {
                    let n = u16::try_unmarshal(b)?;
                    Item::Sized(b.get(n.into()).ok_or(MErr::UnexpectedEndOfBuffer)?.to_vec())
                }
                Kind::Raw(n) => Item::Raw(b.get(n).ok_or(MErr::UnexpectedEndOfBuffer)?.to_vec()),
            });
        }
        Ok(Resp(v))
    }
}
impl Wire for Resp {
    fn generate(o: &mut Vec<u8>) {
        for k in plan(|p| p.shape.clone()) {
            match k {
                Kind::Int(n) => o.extend_from_slice(&int(n as u32 * 8).to_be_bytes()[8 - n..]),
                Kind::Sized => {
                    let n = size(100);
                    o.extend_from_slice(&(n as u16).to_be_bytes());
                    o.extend(bytes(n));
                }
                Kind::Raw(n) => o.extend(bytes(n)),
            }
        }
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        plan(|p| p.shape.clone()).iter().all(|k| match k {
            Kind::Int(n) | Kind::Raw(n) => take(b, pos, *n).is_some(),
            Kind::Sized => take(b, pos, 2).map(|n| be(n) as usize).is_some_and(|n| take(b, pos, n).is_some()),
        })
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        let mut o = Vec::new();
        self.0.iter().for_each(|i| {
            i.encode(&mut o);
        });
        if take(b, pos, o.len()) == Some(&o[..]) { Ok(()) } else { Err(format!("returned values {}", hex(&o))) }
    }
}

/// A vendor command that carries one library structure both ways, with one handle both ways.
struct Carry<T, const CC: u32>(T);
impl<T: Wire, const CC: u32> Marshalable for Carry<T, CC> {
    fn try_marshal(&self, buf: &mut [u8]) -> MRes<usize> {
        self.0.try_marshal(buf)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> MRes<Self> {
        T::try_unmarshal(b).map(Carry)
    }
}
impl<T: Wire, const CC: u32> TpmCommand for Carry<T, CC> {
    const CMD_CODE: TpmCc = TpmCc(CC);
    type Handles = TpmHandle;
    type RespT = T;
    type RespHandles = TpmHandle;
}

trait HandleSet: Marshalable + Default {
    fn from_list(v: &[u32]) -> Self;
}
impl HandleSet for () {
    fn from_list(_: &[u32]) {}
}
impl HandleSet for TpmHandle {
    fn from_list(v: &[u32]) -> Self {
        TpmHandle(v[0])
    }
}
impl HandleSet for Handles {
    fn from_list(v: &[u32]) -> Self {
        Handles(v.to_vec())
    }
}

// ------------------------------------------------------------------ sessions

#[derive(Clone, Debug, PartialEq, Default)]
struct Auth {
    nonce: Vec<u8>,
    attrs: u8,
    hmac: Vec<u8>,
}
impl Auth {
    fn encode(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.nonce.len() as u16).to_be_bytes());
        o.extend_from_slice(&self.nonce);
        o.push(self.attrs);
        o.extend_from_slice(&(self.hmac.len() as u16).to_be_bytes());
        o.extend_from_slice(&self.hmac);
    }
    fn parse(b: &[u8], pos: &mut usize) -> Option<Auth> {
        let mut p = *pos;
        if !<TpmsAuthResponse as Wire>::parse(b, &mut p) {
            return None;
        }
        let n = be(take(b, pos, 2)?) as usize;
        let nonce = take(b, pos, n)?.to_vec();
        let attrs = take(b, pos, 1)?[0];
        let n = be(take(b, pos, 2)?) as usize;
        let hmac = take(b, pos, n)?.to_vec();
        Some(Auth { nonce, attrs, hmac })
    }
}
#[derive(Clone, Debug)]
struct Spec {
    handle: u32,
    auth: Auth,
    /// None: accepts; Some(code): rejects the answer with this error
    verdict: Option<u32>,
    password: bool,
}
impl Spec {
    /// The same authorization with the attributes a password session may also use.
    fn accepts(&self, a: &Auth) -> bool {
        if self.password { a.nonce.is_empty() && a.hmac.is_empty() && a.attrs == 1 } else { self.verdict.is_none() }
    }
}
enum AnySession {
    Sim(usize, Spec),
    Password(usize, PasswordSession),
}
impl Session for AnySession {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        match self {
            AnySession::Sim(i, s) => {
                plan(|p| p.asked.push(*i));
                TpmsAuthCommand {
                    session_handle: TpmiShAuthSession::try_unmarshal(&mut UnmarshalBuf::new(&s.handle.to_be_bytes())).expect("handle"),
                    nonce: Tpm2bNonce::from_bytes(&s.auth.nonce).expect("nonce"),
                    session_attributes: TpmaSession(s.auth.attrs),
                    hmac: Tpm2bAuth::from_bytes(&s.auth.hmac).expect("hmac"),
                }
            }
            AnySession::Password(i, s) => {
                plan(|p| p.asked.push(*i));
                s.get_auth_command()
            }
        }
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        let got = Auth { nonce: a.nonce.get_buffer().to_vec(), attrs: a.session_attributes.0, hmac: a.hmac.get_buffer().to_vec() };
        match self {
            AnySession::Sim(i, s) => {
                plan(|p| p.checked.push((*i, got)));
                match s.verdict {
                    None => Ok(()),
                    Some(c) => Err(TssError::try_from(c).expect("non-zero")),
                }
            }
            AnySession::Password(i, s) => {
                plan(|p| p.checked.push((*i, got)));
                s.validate_auth_response(a)
            }
        }
    }
}

// ------------------------------------------------------------------ connections

#[derive(Debug, Clone, PartialEq)]
enum ConnErr {
    Tss(u32),
    /// An error of the transport itself.
    Link(u64),
}
impl fmt::Display for ConnErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ConnErr {}
impl From<TssError> for ConnErr {
    fn from(e: TssError) -> Self {
        ConnErr::Tss(e.get())
    }
}

#[derive(Clone, Debug)]
enum Answer {
    Bytes(Vec<u8>),
    Fails(u64),
}

struct MemConn {
    log: Vec<Vec<u8>>,
    answer: Answer,
    stale: u8,
}
impl Connection for MemConn {
    type Error = ConnErr;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], ConnErr> {
        self.log.push(cmd.to_vec());
        if self.log.len() > 1 {
            // sent again although it was answered: the TPM executes it again, now with success
            let ok = [0x80, 1, 0, 0, 0, 10, 0, 0, 0, 0];
            rsp[..10].copy_from_slice(&ok);
            return Ok(&mut rsp[..10]);
        }
        match &self.answer {
            Answer::Fails(n) => Err(ConnErr::Link(*n)),
            Answer::Bytes(b) => {
                if b.len() > rsp.len() {
                    return Err(ConnErr::Link(0));
                }
                // whatever was in the transport's buffer before lies behind the response
                match self.stale {
                    0 => {}
                    1 => rsp.fill(0xff),
                    2 => {
                        let mut x = 0x1234_5678u64;
                        rsp.iter_mut().for_each(|r| *r = splitmix(&mut x) as u8);
                    }
                    _ => {
                        // the answer to an earlier, longer command: more of the same
                        let n = b.len().max(1);
                        for (i, r) in rsp.iter_mut().enumerate() {
                            *r = b.get(i % n).copied().unwrap_or(0);
                        }
                    }
                }
                rsp[..b.len()].copy_from_slice(b);
                Ok(&mut rsp[..b.len()])
            }
        }
    }
}
trait Classify {
    fn classify(self) -> ConnErr;
}
impl Classify for ConnErr {
    fn classify(self) -> ConnErr {
        self
    }
}
impl Classify for std::io::Error {
    fn classify(self) -> ConnErr {
        match self.get_ref().and_then(|e| e.downcast_ref::<TssError>()) {
            Some(e) => ConnErr::Tss(e.get()),
            None => ConnErr::Link(self.kind() as u64),
        }
    }
}

// ------------------------------------------------------------------ command cases

type Checker = Box<dyn Fn(&[u8], &[u8]) -> Chk>;
type Ran = Result<Checker, ConnErr>;

trait Case: TpmCommand<Handles: HandleSet, RespT: Wire + 'static, RespHandles: Wire + 'static> + Sized {
    fn plain<T: Connection<Error: From<TssError> + Classify>>(&self, c: &mut T) -> Result<Self::RespT, T::Error> {
        run_command(self, c)
    }
}
impl<const CC: u32> Case for SimCmd<CC> {}
impl<T: Wire + 'static, const CC: u32> Case for Carry<T, CC> {}
impl Case for GetRandomCmd {}
impl Case for StartupCmd {}
impl Case for PcrReadCmd {}
impl Case for GetCapabilityCmd {
    fn plain<T: Connection<Error: From<TssError> + Classify>>(&self, c: &mut T) -> Result<GetCapabilityResp, T::Error> {
        if plan(|p| p.rhandles) == 1 { run_command(self, c) } else { get_capability(c, self) }
    }
}

struct Call {
    case: &'static CaseInfo,
    handles: Vec<u32>,
    sessions: Vec<Spec>,
    params: Vec<u8>,
    encodable: bool,
    /// run_command instead of run_command_with_handles
    plain: bool,
    /// The sessions are handed over directly (0), or by a command that takes one or more (1) or two
    /// or more (2) of them.
    via: u8,
}

/// Sessions as a command sees them that only knows how many there are at least.
enum Area {
    One(AnySession),
    Two((AnySession, AnySession), bool),
    Three((AnySession, AnySession, AnySession), bool),
}
impl AuthorizationArea<AnySession, AnySession, AnySession> for Area {
    fn decompose_ref(&self) -> (Option<&AnySession>, Option<&AnySession>, Option<&AnySession>) {
        match self {
            Area::One(a) => (Some(AuthorizationArea1Plus::decompose_ref(a).0), None, None),
            Area::Two(t, false) => {
                let (a, b, _) = AuthorizationArea1Plus::decompose_ref(t);
                (Some(a), b, None)
            }
            Area::Two(t, true) => {
                let (a, b, _) = AuthorizationArea2Plus::decompose_ref(t);
                (Some(a), Some(b), None)
            }
            Area::Three(t, false) => {
                let (a, b, c) = AuthorizationArea1Plus::decompose_ref(t);
                (Some(a), b, c)
            }
            Area::Three(t, true) => {
                let (a, b, c) = AuthorizationArea2Plus::decompose_ref(t);
                (Some(a), Some(b), c)
            }
        }
    }
}

fn run_on<C: Case, T: Connection<Error: From<TssError> + Classify>>(call: &Call, c: &mut T) -> Ran {
    let cmd = C::try_unmarshal(&mut UnmarshalBuf::new(&call.params)).expect("parameters");
    if call.plain {
        return match cmd.plain(c) {
            Ok(r) => Ok(Box::new(move |_, p| full(&r, p))),
            Err(e) => Err(e.classify()),
        };
    }
    let mut s: Vec<AnySession> = call
        .sessions
        .iter()
        .enumerate()
        .map(|(i, s)| {
            if s.password { AnySession::Password(i, PasswordSession::new(&s.auth.hmac).expect("password")) } else { AnySession::Sim(i, s.clone()) }
        })
        .collect();
    let h = C::Handles::from_list(&call.handles);
    let area = if call.via == 0 {
        None
    } else {
        let mut it = s.drain(..);
        match (it.next(), it.next(), it.next()) {
            (None, ..) => None,
            (Some(a), None, _) => Some(Area::One(a)),
            (Some(a), Some(b), None) => Some(Area::Two((a, b), call.via == 2)),
            (Some(a), Some(b), Some(d)) => Some(Area::Three((a, b, d), call.via == 2)),
        }
    };
    let r = match s.len() {
        _ if area.is_some() => run_command_with_handles(&cmd, h, area.expect("area"), c),
        0 => run_command_with_handles(&cmd, h, (), c),
        1 => run_command_with_handles(&cmd, h, s.remove(0), c),
        2 => {
            let (a, b) = (s.remove(0), s.remove(0));
            run_command_with_handles(&cmd, h, (a, b), c)
        }
        _ => {
            let (a, b, d) = (s.remove(0), s.remove(0), s.remove(0));
            run_command_with_handles(&cmd, h, (a, b, d), c)
        }
    };
    match r {
        Ok((r, rh)) => Ok(Box::new(move |h, p| {
            full(&rh, h).map_err(|e| format!("handles: {e}"))?;
            full(&r, p)
        })),
        Err(e) => Err(e.classify()),
    }
}
fn full<T: Wire>(v: &T, b: &[u8]) -> Chk {
    let mut pos = 0;
    v.check(b, &mut pos)?;
    if pos == b.len() { Ok(()) } else { Err(format!("{} of {} bytes accounted for", pos, b.len())) }
}

struct CaseInfo {
    name: &'static str,
    cc: u32,
    /// number of command handles; None: any
    nh: Option<usize>,
    sim: bool,
    gen_params: fn(&mut Vec<u8>),
    gen_rh: fn(&mut Vec<u8>),
    gen_rp: fn(&mut Vec<u8>),
    parse_rh: fn(&[u8], &mut usize) -> bool,
    parse_rp: fn(&[u8], &mut usize) -> bool,
    mem: fn(&Call, &mut MemConn) -> Ran,
    tcp: fn(&Call, &mut TcpConnection) -> Ran,
}
macro_rules! case {
    ($t:ty, $cc:expr, $nh:expr, $sim:expr, $gen:expr) => {
        CaseInfo {
            name: stringify!($t),
            cc: $cc,
            nh: $nh,
            sim: $sim,
            gen_params: $gen,
            gen_rh: <<$t as TpmCommand>::RespHandles as Wire>::generate,
            gen_rp: <<$t as TpmCommand>::RespT as Wire>::generate,
            parse_rh: <<$t as TpmCommand>::RespHandles as Wire>::parse,
            parse_rp: <<$t as TpmCommand>::RespT as Wire>::parse,
            mem: run_on::<$t, MemConn>,
            tcp: run_on::<$t, TcpConnection>,
        }
    };
}
fn none(_: &mut Vec<u8>) {}
macro_rules! sims { ($($cc:expr),*) => { [ $( case!(SimCmd<$cc>, $cc, None, true, none) ),* ] } }
macro_rules! carries { ($($t:ty: $cc:expr),*) => { [ $( case!(Carry<$t, $cc>, $cc, Some(1), false, <$t as Wire>::generate) ),* ] } }
static SIMS: [CaseInfo; 10] = sims!(0x0000_011f, 0x0000_0120, 0x0000_0144, 0x0000_017a, 0x0000_0131, 0, 0xffff_ffff, 0x2000_0001, 0x8001_0000, 0x0102_0304);
static CARRIES: [CaseInfo; 8] = carries!(TpmtPublic: 0x157, TpmsAttest: 0x158, TpmlDigest: 0x17e, Tpm2bMaxBuffer: 0x15c, TpmtSignature: 0x15d, TpmsCapabilityData: 0x2000_0017,
    Tpm2bContextData: 0x161, TpmsNvPublic: 0x169);
static REALS: [CaseInfo; 4] = [
    case!(GetCapabilityCmd, 0x17a, Some(0), false, <GetCapabilityCmd as Wire>::generate),
    case!(GetRandomCmd, 0x17b, Some(0), false, <GetRandomCmd as Wire>::generate),
    case!(PcrReadCmd, 0x17e, Some(0), false, <PcrReadCmd as Wire>::generate),
    case!(StartupCmd, 0x144, Some(0), false, <StartupCmd as Wire>::generate),
];
// StartupCmd has no response parameters; `()` is Wire.

// ------------------------------------------------------------------ reference model

fn encode_command(c: &Call) -> Option<Vec<u8>> {
    if !c.encodable {
        return None;
    }
    let mut o = Vec::new();
    o.extend_from_slice(if c.sessions.is_empty() { &[0x80, 0x01] } else { &[0x80, 0x02] });
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&c.case.cc.to_be_bytes());
    for h in &c.handles {
        o.extend_from_slice(&h.to_be_bytes());
    }
    if !c.sessions.is_empty() {
        let mut a = Vec::new();
        for s in &c.sessions {
            a.extend_from_slice(&s.handle.to_be_bytes());
            s.auth.encode(&mut a);
        }
        o.extend_from_slice(&(a.len() as u32).to_be_bytes());
        o.extend(a);
    }
    o.extend_from_slice(&c.params);
    let n = o.len() as u32;
    o[2..6].copy_from_slice(&n.to_be_bytes());
    Some(o)
}

#[derive(Clone, Default)]
struct Parts {
    handles: Vec<u8>,
    params: Vec<u8>,
    auths: Vec<Auth>,
}
fn encode_response(p: &Parts, sessions: bool) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(if sessions { &[0x80, 0x02] } else { &[0x80, 0x01] });
    o.extend_from_slice(&[0; 8]);
    o.extend_from_slice(&p.handles);
    if sessions {
        o.extend_from_slice(&(p.params.len() as u32).to_be_bytes());
    }
    o.extend_from_slice(&p.params);
    p.auths.iter().for_each(|a| a.encode(&mut o));
    fix_size(&mut o);
    o
}
fn fix_size(o: &mut [u8]) {
    let n = o.len() as u32;
    if o.len() >= 6 {
        o[2..6].copy_from_slice(&n.to_be_bytes());
    }
}

/// What the received bytes are.
enum Read {
    Malformed,
    Code(u32),
    Good(Parts),
    /// Inconsistent tag: the client may refuse, or read it in one of these ways.
    Odd(Vec<Parts>),
}
fn parse_body(c: &Call, b: &[u8], framed: bool) -> Option<Parts> {
    let mut pos = 10;
    if !(c.case.parse_rh)(b, &mut pos) {
        return None;
    }
    let handles = b[10..pos].to_vec();
    let psize = if framed { Some(be(take(b, &mut pos, 4)?) as usize) } else { None };
    let from = pos;
    if !(c.case.parse_rp)(b, &mut pos) || psize.is_some_and(|n| n != pos - from) {
        return None;
    }
    let params = b[from..pos].to_vec();
    let mut auths = Vec::new();
    for _ in &c.sessions {
        auths.push(Auth::parse(b, &mut pos)?);
    }
    (pos == b.len()).then_some(Parts { handles, params, auths })
}
fn read_response(c: &Call, b: &[u8]) -> Read {
    if b.len() < 10 {
        return Read::Malformed;
    }
    let rc = be(&b[6..10]) as u32;
    if rc != 0 {
        return Read::Code(rc);
    }
    if be(&b[2..6]) as usize != b.len() {
        return Read::Malformed;
    }
    let tag = be(&b[..2]);
    let expect = if c.sessions.is_empty() { 0x8001 } else { 0x8002 };
    if tag == expect {
        return parse_body(c, b, tag == 0x8002).map(Read::Good).unwrap_or(Read::Malformed);
    }
    let mut v: Vec<Parts> = Vec::new();
    v.extend(parse_body(c, b, false));
    v.extend(parse_body(c, b, true));
    if v.is_empty() { Read::Malformed } else { Read::Odd(v) }
}

// ------------------------------------------------------------------ running a call

struct Outcome {
    result: Ran,
    sent: Vec<Vec<u8>>,
    asked: Vec<usize>,
    checked: Vec<(usize, Auth)>,
}
enum Conn {
    Mem(MemConn),
    Tcp(Box<Link>, Rc<World>, #[allow(dead_code)] Guard),
}
impl Conn {
    fn draw() -> Option<Conn> {
        if chance(1, 5) {
            let w = World::new(Net::calm());
            let g = w.enter();
            if chance(1, 2) {
                let n = Net::draw(1);
                w.i.borrow_mut().net = n;
            }
            probe("over_tcp");
            Some(Conn::Tcp(Box::new(Link::open(&w, 2321, 2322)?), w, g))
        } else {
            Some(Conn::Mem(MemConn { log: vec![], answer: Answer::Fails(0), stale: 0 }))
        }
    }
    fn perform(&mut self, call: &Call, answer: &Answer) -> Option<Outcome> {
        op_done();
        plan(|p| {
            p.asked.clear();
            p.checked.clear();
        });
        tr!(
            "{}: {} handles, {} sessions, {} parameter bytes{}; the TPM answers {}",
            call.case.name,
            call.handles.len(),
            call.sessions.len(),
            call.params.len(),
            if call.plain { " (run_command)" } else { "" },
            match answer {
                Answer::Bytes(b) => hex(b),
                Answer::Fails(n) => format!("with transport error {n}"),
            }
        );
        note(&call.case.cc.to_be_bytes());
        note(&[call.handles.len() as u8, call.sessions.len() as u8]);
        if let Answer::Bytes(b) = answer {
            note(b);
        }
        let (result, sent) = match self {
            Conn::Mem(m) => {
                m.log.clear();
                m.answer = answer.clone();
                m.stale = draw(4) as u8;
                let r = sut("run_command", || (call.case.mem)(call, m))?;
                (r, std::mem::take(&mut m.log))
            }
            Conn::Tcp(l, w, _) => {
                {
                    let mut i = w.i.borrow_mut();
                    i.peers[l.peer].planned.clear();
                    match answer {
                        Answer::Bytes(b) => i.peers[l.peer].planned.push_back(b.clone()),
                        Answer::Fails(n) => {
                            let id = l.tpm;
                            let at = i.streams[&id].consumed;
                            i.streams.get_mut(&id).unwrap().read_err = Some((at, kind(*n)));
                        }
                    }
                }
                let m = l.mark();
                let r = sut("run_command", || (call.case.tcp)(call, &mut l.conn))?;
                let sent = l
                    .written(&m)
                    .0
                    .into_iter()
                    .map(|(_, r)| match r {
                        Req::Command { data, .. } => data,
                        _ => vec![],
                    })
                    .collect();
                (r, sent)
            }
        };
        let (asked, checked) = plan(|p| (std::mem::take(&mut p.asked), std::mem::take(&mut p.checked)));
        match &result {
            Ok(_) => probe("call_ok"),
            Err(ConnErr::Tss(_)) => probe("call_tss_error"),
            Err(ConnErr::Link(_)) => probe("call_transport_error"),
        }
        tr!("  -> {}", result.as_ref().map(|_| "Ok".to_string()).unwrap_or_else(|e| format!("{e:?}")));
        Some(Outcome { result, sent, asked, checked })
    }
    fn is_tcp(&self) -> bool {
        matches!(self, Conn::Tcp(..))
    }
}
fn kind(n: u64) -> ErrorKind {
    [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::Other][n as usize % 4]
}

// ------------------------------------------------------------------ generation

fn gen_session() -> Spec {
    if chance(1, 3) {
        let n = if chance(1, 3) { 0 } else { size(64) };
        let hmac = bytes(n);
        return Spec { handle: 0x4000_0009, auth: Auth { nonce: vec![], attrs: 0, hmac }, verdict: None, password: true };
    }
    let handle = match draw(4) {
        0 => 0x0200_0000 | draw(0x100_0000) as u32,
        1 => 0x0300_0000 | draw(0x100_0000) as u32,
        2 => 0x4000_0009,
        _ => int(32) as u32,
    };
    let n = size(64);
    let h = size(64);
    Spec { handle, auth: Auth { nonce: bytes(n), attrs: int(8) as u8, hmac: bytes(h) }, verdict: None, password: false }
}
fn gen_items(n: u64) -> Vec<Item> {
    (0..n)
        .map(|_| match draw(6) {
            0 => Item::Int(int(8), 1),
            1 => Item::Int(int(16), 2),
            2 => Item::Int(int(32), 4),
            3 => Item::Int(int(64), 8),
            4 => {
                let n = size(120);
                Item::Sized(bytes(n))
            }
            _ => {
                let n = size(80);
                Item::Raw(bytes(n))
            }
        })
        .collect()
}
fn gen_shape() -> Vec<Kind> {
    (0..draw(6))
        .map(|_| match draw(4) {
            0 => Kind::Int(pick(&[1, 2, 4, 8])),
            1 => Kind::Sized,
            2 => Kind::Raw(size(64)),
            _ => Kind::Int(4),
        })
        .collect()
}
fn set_items(items: Vec<Item>) -> (Vec<u8>, bool) {
    let mut b = Vec::new();
    let ok = items.iter().fold(true, |ok, i| i.encode(&mut b) && ok);
    plan(|p| p.items = items);
    (b, ok)
}
fn gen_call(sessions: u64) -> Call {
    let case: &'static CaseInfo = match weighted(&[5, 2, 2]) {
        0 => &SIMS[draw(SIMS.len() as u64) as usize],
        1 => &CARRIES[draw(CARRIES.len() as u64) as usize],
        _ => &REALS[draw(REALS.len() as u64) as usize],
    };
    let rh = draw(4) as usize;
    let shape = gen_shape();
    plan(|p| {
        p.rhandles = rh;
        p.shape = shape;
    });
    let (params, encodable) = if case.sim {
        let n = draw(6);
        set_items(gen_items(n))
    } else {
        let mut b = Vec::new();
        (case.gen_params)(&mut b);
        (b, true)
    };
    let ns = if sessions == 4 { draw(4) } else { sessions };
    let plain = ns == 0 && case.nh.unwrap_or(0) == 0 && chance(1, 2);
    let nh = if plain { 0 } else { case.nh.unwrap_or_else(|| draw(4) as usize) };
    let handles = (0..nh).map(|_| int(32) as u32).collect();
    if plain && case.sim {
        plan(|p| p.rhandles = rh); // run_command drops the response handles but still reads them
    }
    let via = if ns > 0 && chance(1, 6) { range(1, 2) as u8 } else { 0 };
    Call { case, handles, sessions: (0..ns).map(|_| gen_session()).collect(), params, encodable, plain, via }
}
fn small_enough(c: &Call) -> bool {
    encode_command(c).is_some_and(|b| b.len() <= MAX)
}
fn good_auth(s: &Spec) -> Auth {
    if s.password {
        Auth { nonce: vec![], attrs: 1, hmac: vec![] }
    } else {
        let n = size(64);
        let h = size(64);
        Auth { nonce: bytes(n), attrs: int(8) as u8, hmac: bytes(h) }
    }
}
fn gen_parts(c: &Call) -> Parts {
    let mut p = Parts::default();
    (c.case.gen_rh)(&mut p.handles);
    (c.case.gen_rp)(&mut p.params);
    p.auths = c.sessions.iter().map(good_auth).collect();
    if c.case.sim && chance(1, 8) {
        // fill up to (about) the largest response that the buffer takes
        let have = encode_response(&p, !c.sessions.is_empty()).len();
        if have < MAX {
            let n = if chance(1, 2) { MAX - have - draw(4).min((MAX - have) as u64) as usize } else { total_size().saturating_sub(have) };
            plan(|q| q.shape.push(Kind::Raw(n)));
            p.params.extend(bytes(n));
            probe("response_near_limit");
        }
    }
    p
}
const RCS: [u32; 18] =
    [0x922, 0x921, 0x908, 0x909, 0x905, 0x101, 0x100, 0x1e, 0x142, 0x143, 0x904, 0x9a2, 0x98e, 0x1c4, 0x2d5, 0x0008_0922, 0x80280400, 0xffff_ffff];
fn gen_rc() -> u32 {
    match draw(6) {
        0 | 1 => pick(&RCS),
        2 => (int(32) as u32).max(1),
        3 => 1 << draw(32),
        4 => 0x900 + draw(0x30) as u32, // the warnings
        _ => 1 + draw(0xfff) as u32,
    }
}
/// Any regular outcome: good, refused or unreachable.
fn any_answer(c: &Call) -> Answer {
    match weighted(&[4, 3, 2]) {
        0 => {
            let p = gen_parts(c);
            Answer::Bytes(encode_response(&p, !c.sessions.is_empty()))
        }
        1 => {
            fault("tpm_error_code");
            let mut b = vec![0x80, 0x01, 0, 0, 0, 10];
            b.extend_from_slice(&gen_rc().to_be_bytes());
            Answer::Bytes(b)
        }
        _ => {
            fault("transport_error");
            Answer::Fails(draw(1 << 20))
        }
    }
}

// ------------------------------------------------------------------ C08

fn c08() {
    let Some(mut conn) = Conn::draw() else { return };
    for _ in 0..seldom_long(4) {
        let mut call = gen_call(4);
        if call.case.sim && chance(1, 8) {
            resize_to(&mut call, total_size());
            probe("command_of_chosen_size");
        }
        if !small_enough(&call) {
            continue;
        }
        if !call.sessions.is_empty() || !call.handles.is_empty() {
            nontrivial();
        }
        let want = encode_command(&call).expect("encodable");
        let mut answer = any_answer(&call);
        if let Answer::Bytes(b) = &mut answer
            && chance(1, 5)
        {
            // whatever comes back, the command goes out once
            fault("mangled_response");
            match draw(3) {
                0 => b.truncate(draw(b.len() as u64 + 1) as usize),
                1 => {
                    let n = pick(&[0usize, 1, 6, 9, 10, 11]);
                    b.truncate(n)
                }
                _ => {
                    if !b.is_empty() {
                        let at = draw(b.len() as u64) as usize;
                        b[at] ^= 1 << draw(8);
                    }
                }
            }
        }
        if conn.is_tcp() && matches!(answer, Answer::Fails(_)) {
            answer = Answer::Bytes(vec![0x80, 1, 0, 0, 0, 10, 0, 0, 9, 0x22]);
        }
        let Some(out) = conn.perform(&call, &answer) else { return };
        judge_sent(&call, &out, &want);
        if failed() {
            return;
        }
    }
}
fn judge_sent(call: &Call, out: &Outcome, want: &[u8]) {
    ensure!(out.sent.len() == 1, "not-once", "{}: the command was handed over {} times", call.case.name, out.sent.len());
    if let Some(got) = out.sent.first() {
        let mut alt = want.to_vec();
        if got != want {
            // a password authorization may ask for the session to continue
            let mut at = 14 + 4 * call.handles.len();
            for s in &call.sessions {
                if s.password && got.get(at + 6) == Some(&1) {
                    alt[at + 6] = 1;
                }
                at += 4 + 5 + s.auth.nonce.len() + s.auth.hmac.len();
            }
        }
        ensure!(*got == alt, "bad-framing", "{}: sent {} instead of {}", call.case.name, hex(got), hex(want));
    }
}

// ------------------------------------------------------------------ C09

fn c09() {
    let Some(mut conn) = Conn::draw() else { return };
    for _ in 0..seldom_long(3) {
        let mut call = gen_call(4);
        if call.case.sim {
            match weighted(&[5, 2, 2, 1]) {
                0 => resize(&mut call, true),
                1 => resize(&mut call, false),
                2 => {
                    let mut items = gen_items(draw(4));
                    let at = draw(items.len() as u64 + 1) as usize;
                    items.insert(at, Item::Broken(pick(&[0u8, 1, 4, 28, 251])));
                    (call.params, call.encodable) = set_items(items);
                    fault("unencodable_value");
                }
                _ => {}
            }
        }
        let fits = small_enough(&call);
        if !fits {
            fault("command_too_large");
        }
        let total = encode_command(&call).map(|b| b.len());
        if total.is_some_and(|n| n > MAX - 8 && n <= MAX) {
            probe("command_near_limit");
            nontrivial();
        }
        tr!("encoded size {total:?}");
        let p = gen_parts(&call);
        let answer = Answer::Bytes(encode_response(&p, !call.sessions.is_empty()));
        let Some(out) = conn.perform(&call, &answer) else { return };
        if fits {
            judge_sent(&call, &out, &encode_command(&call).expect("encodable"));
        } else {
            ensure!(out.sent.is_empty(), "sent-oversize", "{}: an encoding of {total:?} bytes was handed to the connection ({})", call.case.name, hex(out.sent.first().map(|x| &x[..]).unwrap_or(&[])));
            match &out.result {
                Ok(_) => fail("accepted-oversize", format!("{}: a command of {total:?} bytes succeeded", call.case.name)),
                Err(ConnErr::Tss(_)) => {}
                Err(e) => fail("wrong-error", format!("{}: refused command reported as {e:?}", call.case.name)),
            }
        }
        if failed() {
            return;
        }
    }
}
/// A size that fits the buffers: often the largest, or around a power of two.
fn total_size() -> usize {
    match draw(4) {
        0 => range(10, MAX as u64) as usize,
        1 => MAX - draw(4) as usize,
        _ => ((1usize << range(4, 12)) + draw(5) as usize - 2).min(MAX),
    }
}
/// Makes the command end around the limit, crossing it in the handles, a session or the parameters.
fn resize(call: &mut Call, near: bool) {
    let target = if near { (MAX as u64 - 8 + draw(18)) as usize } else { MAX + 1 + draw(5000) as usize };
    resize_to(call, target);
}
fn resize_to(call: &mut Call, target: usize) {
    match draw(3) {
        0 if !call.plain => {
            // many handles, then the rest
            let rest = encode_command(call).map(|b| b.len() - 4 * call.handles.len()).unwrap_or(10);
            let room = target.saturating_sub(rest);
            let n = if chance(1, 2) { room / 4 } else { (MAX - 10) / 4 - draw(3) as usize + draw(4) as usize };
            call.handles = (0..n).map(|i| (i as u32).wrapping_mul(0x0101_0101)).collect();
        }
        1 if !call.sessions.is_empty() && !call.plain => {
            // the sessions straddle the limit: handles end just before it
            let n = (MAX - 10) / 4 - draw(110) as usize;
            call.handles = (0..n).map(|i| i as u32).collect();
        }
        _ => {
            let have = encode_command(call).map(|b| b.len()).unwrap_or(10);
            if have < target {
                let n = target - have;
                let mut items = plan(|p| p.items.clone());
                if chance(1, 3) && n >= 2 && n - 2 <= 0xffff {
                    items.push(Item::Sized(bytes(n - 2)));
                } else if chance(1, 3) && n > 8 {
                    items.push(Item::Raw(bytes(n - 8)));
                    items.push(Item::Int(int(64), 8));
                } else {
                    items.push(Item::Raw(bytes(n)));
                }
                (call.params, call.encodable) = set_items(items);
            }
        }
    }
}

// ------------------------------------------------------------------ C10

fn c10() {
    let Some(mut conn) = Conn::draw() else { return };
    for _ in 0..seldom_long(5) {
        if chance(1, 5) {
            // something went wrong before
            let call = gen_call(4);
            if small_enough(&call) && !conn.is_tcp() {
                let a = any_answer(&call);
                if conn.perform(&call, &a).is_none() {
                    return;
                }
            }
        }
        let call = gen_call(4);
        if !small_enough(&call) {
            continue;
        }
        let parts = gen_parts(&call);
        let b = encode_response(&parts, !call.sessions.is_empty());
        if b.len() > MAX {
            probe("response_beyond_buffer");
            continue;
        }
        nontrivial();
        let Some(out) = conn.perform(&call, &Answer::Bytes(b.clone())) else { return };
        match &out.result {
            Ok(check) => {
                let h = if call.plain { vec![] } else { parts.handles.clone() };
                if let Err(e) = check(&h, &parts.params) {
                    fail("wrong-value", format!("{}: response {}: {e}", call.case.name, hex(&b)));
                }
            }
            Err(e) => fail("refused-wellformed", format!("{}: well-formed response {} ({} bytes, {} sessions) failed with {e:?}", call.case.name, hex(&b), b.len(), call.sessions.len())),
        }
        if failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C11

/// Bytes behind a response: anything, padding, one more authorization, the response again.
fn tail(b: &mut Vec<u8>) {
    let k = 1 + small(24);
    match draw(6) {
        0 => b.extend(vec![0; k]),
        1 => b.extend(vec![0xff; k]),
        2 => b.extend([0, 0, 1, 0, 0]),
        3 => b.extend(b.clone()),
        4 => {
            let to = pick(&[8usize, 16, 64, 512, 4096]);
            let n = b.len().next_multiple_of(to);
            b.resize(if n == b.len() { n + 1 } else { n }, 0)
        }
        _ => b.extend(bytes(k)),
    }
}
fn damage_response(call: &Call, b: &mut Vec<u8>, parts: &Parts) {
    let n = b.len();
    let framed = !call.sessions.is_empty();
    let put32 = |b: &mut Vec<u8>, at: usize, v: u32| {
        if b.len() >= at + 4 {
            b[at..at + 4].copy_from_slice(&v.to_be_bytes());
        }
    };
    match draw(12) {
        0 => {
            let k = draw(n as u64) as usize;
            b.truncate(k);
            fault("response_truncated");
        }
        1 => {
            let k = draw(n as u64) as usize;
            b.truncate(k);
            fix_size(b);
            fault("response_truncated_size_fixed");
        }
        2 => {
            tail(b);
            fault("response_extended");
        }
        3 => {
            tail(b);
            fix_size(b);
            fault("response_trailing_bytes");
        }
        4 => {
            let v = match draw(5) {
                0 => draw(12) as u32,
                1 => n as u32 + 1 + draw(64) as u32,
                2 => (n as u32).wrapping_sub(1 + draw(16) as u32),
                3 => pick(&[4095, 4096, 4097, 0xffff_ffff, 0x8000_0000, 0x0001_0000 + n as u32, (n as u32) << 8, (n as u32).swap_bytes()]),
                _ => draw(4200) as u32,
            };
            put32(b, 2, v);
            fault("size_field_wrong");
        }
        5 | 6 if framed => {
            let at = 10 + parts.handles.len();
            let true_size = parts.params.len() as u32;
            let v = match draw(6) {
                0 => 0,
                1 => true_size.wrapping_add(1 + draw(8) as u32),
                2 => true_size.wrapping_sub(1 + draw(8) as u32),
                3 => (n - at - 4) as u32,
                4 => pick(&[0xffff_ffff, 0x8000_0000, 0xffff, 4096, true_size | 0x8000_0000, true_size << 8, true_size + 0x100, true_size + 0x1_0000]),
                _ => draw(200) as u32,
            };
            put32(b, at, v);
            fault("parameter_size_wrong");
        }
        7 => {
            let at = draw(n as u64) as usize;
            b[at] ^= 1 << draw(8);
            fault("bit_flip");
        }
        8 => {
            let k = small(30);
            *b = bytes(k);
            if chance(1, 2) {
                let mut h = vec![0x80, 0x01, 0, 0, 0, 0, 0, 0, 0, 0];
                h.extend_from_slice(b);
                *b = h;
                if chance(1, 2) {
                    fix_size(b);
                }
            }
            fault("garbage_response");
        }
        9 => {
            // a piece is missing in the middle
            let at = draw(n as u64) as usize;
            let k = 1 + draw(8) as usize;
            b.drain(at..(at + k).min(n));
            if chance(2, 3) {
                fix_size(b);
            }
            fault("bytes_lost");
        }
        10 => {
            let t = pick(&[0x8001u16, 0x8002, 0, 0x00c4, 0x8000, 0xffff]);
            if b.len() >= 2 {
                b[..2].copy_from_slice(&t.to_be_bytes());
            }
            fault("tag_changed");
        }
        _ => {
            // duplicated delivery of the whole response
            let c = b.clone();
            b.extend(c);
            if chance(1, 2) {
                fix_size(b);
            }
            fault("response_duplicated");
        }
    }
    b.truncate(MAX);
}
fn small(max: u64) -> usize {
    draw(max + 1) as usize
}

fn c11() {
    let Some(mut conn) = Conn::draw() else { return };
    for _ in 0..seldom_long(4) {
        let call = gen_call(4);
        if !small_enough(&call) {
            continue;
        }
        let parts = gen_parts(&call);
        let mut b = encode_response(&parts, !call.sessions.is_empty());
        damage_response(&call, &mut b, &parts);
        let Some(out) = conn.perform(&call, &Answer::Bytes(b.clone())) else { return };
        let Ok(check) = &out.result else { continue };
        let reads = match read_response(&call, &b) {
            Read::Malformed => {
                fail("accepted-malformed", format!("{}: success for the malformed response {} ({} bytes)", call.case.name, hex(&b), b.len()));
                return;
            }
            Read::Code(rc) => {
                fail("accepted-malformed", format!("{}: success for a response with code {rc:#x}", call.case.name));
                return;
            }
            Read::Good(p) => vec![p],
            Read::Odd(v) => v,
        };
        let fits = reads.iter().any(|p| {
            let h = if call.plain { vec![] } else { p.handles.clone() };
            check(&h, &p.params).is_ok() && accepted(&call, p, &out)
        });
        ensure!(fits, "misread", "{}: success with values that {} does not carry", call.case.name, hex(&b));
        if failed() {
            return;
        }
    }
}
/// Every session was given exactly its own authorization, in order, and accepts it.
fn accepted(call: &Call, p: &Parts, out: &Outcome) -> bool {
    let want: Vec<(usize, Auth)> = p.auths.iter().cloned().enumerate().collect();
    out.checked == want && call.sessions.iter().zip(&p.auths).all(|(s, a)| s.accepts(a))
}

// ------------------------------------------------------------------ C12

fn c12() {
    let Some(mut conn) = Conn::draw() else { return };
    if chance(1, 16) {
        passwords();
    }
    for _ in 0..seldom_long(4) {
        let mut call = gen_call(1 + draw(3));
        for s in call.sessions.iter_mut().filter(|s| !s.password) {
            if chance(1, 4) {
                s.verdict = Some(gen_rc());
                fault("session_rejects");
            }
        }
        if !small_enough(&call) {
            continue;
        }
        nontrivial();
        let mut parts = gen_parts(&call);
        for (s, a) in call.sessions.iter().zip(parts.auths.iter_mut()) {
            if s.password && chance(1, 3) {
                match draw(4) {
                    0 => a.attrs = pick(&[0u8, 3, 0x81, 0x21, 0xff, 2, 0x41, 5]),
                    1 => {
                        let n = 1 + small(63);
                        a.nonce = bytes(n)
                    }
                    2 => {
                        let n = 1 + small(63);
                        a.hmac = bytes(n)
                    }
                    _ => {
                        a.nonce = bytes(16);
                        a.attrs = draw(256) as u8;
                    }
                }
                fault("password_answer_wrong");
            }
        }
        let mut b = encode_response(&parts, true);
        let mut intact = true;
        match weighted(&[6, 1, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                let mut p = parts.clone();
                p.auths.pop();
                b = encode_response(&p, true);
                intact = false;
                fault("authorization_missing");
            }
            2 => {
                // the session tag is stripped, with or without its authorizations
                let mut p = parts.clone();
                if chance(2, 3) {
                    p.auths.clear();
                }
                b = encode_response(&p, false);
                intact = false;
                fault("sessions_stripped");
            }
            3 => {
                let mut p = parts.clone();
                p.auths.clear();
                b = encode_response(&p, true);
                intact = false;
                fault("authorization_missing");
            }
            4 => {
                let mut p = parts.clone();
                p.auths.reverse();
                if chance(1, 2) {
                    let a = p.auths[0].clone();
                    p.auths.push(a);
                    intact = false;
                } else {
                    parts = p.clone();
                }
                b = encode_response(&p, true);
                fault("authorizations_moved");
            }
            _ => {
                damage_response(&call, &mut b, &parts);
                intact = false;
            }
        }
        if b.len() > MAX {
            continue;
        }
        let Some(out) = conn.perform(&call, &Answer::Bytes(b.clone())) else { return };
        let ids: Vec<usize> = (0..call.sessions.len()).collect();
        ensure!(out.asked == ids, "auth-calls", "{}: sessions asked for authorization: {:?}", call.case.name, out.asked);
        if intact {
            // which session is the first to reject?
            let first = call.sessions.iter().zip(&parts.auths).position(|(s, a)| !s.accepts(a));
            for (i, a) in &out.checked {
                ensure!(parts.auths.get(*i) == Some(a), "wrong-auth", "{}: session {i} was given {a:?} although the TPM returned {:?}", call.case.name, parts.auths.get(*i));
            }
            let order: Vec<usize> = out.checked.iter().map(|x| x.0).collect();
            ensure!(order.windows(2).all(|w| w[0] < w[1]), "auth-order", "{}: sessions validated in order {order:?}", call.case.name);
            match (first, &out.result) {
                (None, Ok(_)) => ensure!(order == ids, "unvalidated", "{}: success although only sessions {order:?} saw their answer", call.case.name),
                (None, Err(e)) => fail("refused-accepted", format!("{}: all sessions accept, but the call failed with {e:?}", call.case.name)),
                (Some(i), Ok(_)) => fail("ignored-rejection", format!("{}: success although session {i} rejected its answer", call.case.name)),
                (Some(i), Err(e)) => {
                    if let (Some(c), false) = (call.sessions[i].verdict, call.sessions[i].password) {
                        ensure!(*e == ConnErr::Tss(c), "wrong-rejection", "{}: session {i} rejected with {c:#x}, the call failed with {e:?}", call.case.name);
                    }
                }
            }
        } else if out.result.is_ok() {
            let reads = match read_response(&call, &b) {
                Read::Good(p) => vec![p],
                Read::Odd(v) => v,
                _ => vec![],
            };
            ensure!(
                reads.iter().any(|p| accepted(&call, p, &out)),
                "unvalidated",
                "{}: success although not every session accepted an answer of its own (response {})",
                call.case.name,
                hex(&b)
            );
        }
        if failed() {
            return;
        }
    }
}
fn passwords() {
    let n = size(70);
    let p = bytes(n);
    op_done();
    match sut("PasswordSession::new", || PasswordSession::new(&p)) {
        Some(Ok(s)) => {
            ensure!(n <= 64, "accepted-malformed", "a password of {n} bytes was accepted");
            ensure!(s.get_secret() == &p[..], "wrong-value", "the password session holds {} instead of {}", hex(s.get_secret()), hex(&p));
        }
        Some(Err(e)) => ensure!(n > 64, "refused-wellformed", "a password of {n} bytes was refused with {e:?}"),
        None => {}
    }
}

// ------------------------------------------------------------------ C13

fn c13() {
    if chance(1, 4) {
        codes();
        return;
    }
    let Some(mut conn) = Conn::draw() else { return };
    for _ in 0..seldom_long(5) {
        let call = gen_call(4);
        if !small_enough(&call) {
            continue;
        }
        nontrivial();
        if chance(1, 4) {
            // the transport fails
            let n = draw(1 << 20);
            fault("transport_error");
            let Some(out) = conn.perform(&call, &Answer::Fails(n)) else { return };
            let want = if conn.is_tcp() { ConnErr::Link(kind(n) as u64) } else { ConnErr::Link(n) };
            match &out.result {
                Err(e) => ensure!(*e == want, "wrong-error", "{}: the transport failed with {want:?}, the call with {e:?}", call.case.name),
                Ok(_) => fail("fabricated-success", format!("{}: success although the transport failed", call.case.name)),
            }
            if conn.is_tcp() {
                return; // the stream is lost
            }
        } else {
            let rc = gen_rc();
            let mut b = match draw(4) {
                0 => vec![0x80, 0x01, 0, 0, 0, 10, 0, 0, 0, 0],
                1 => {
                    let p = gen_parts(&call);
                    encode_response(&p, !call.sessions.is_empty())
                }
                _ => {
                    let p = gen_parts(&call);
                    let mut b = encode_response(&p, !call.sessions.is_empty());
                    damage_response(&call, &mut b, &p);
                    b
                }
            };
            if b.len() < 10 {
                b.resize(10, 0);
            }
            if b.len() > MAX {
                continue;
            }
            b[6..10].copy_from_slice(&rc.to_be_bytes());
            fault("tpm_error_code");
            let Some(out) = conn.perform(&call, &Answer::Bytes(b.clone())) else { return };
            match &out.result {
                Err(e) => ensure!(*e == ConnErr::Tss(rc), "wrong-code", "{}: the TPM answered {rc:#x} ({}), the call failed with {e:?}", call.case.name, hex(&b)),
                Ok(_) => fail("ignored-code", format!("{}: success although the TPM answered {rc:#x}", call.case.name)),
            }
        }
        if failed() {
            return;
        }
    }
}

const NAMED: &[(&str, TpmRcError, u32, bool)] = &[
    ("Asymmetric", TpmRcError::Asymmetric, 0x081, false),
    ("Value", TpmRcError::Value, 0x084, false),
    ("Size", TpmRcError::Size, 0x095, false),
    ("Selector", TpmRcError::Selector, 0x098, false),
    ("BadTag", TpmRcError::BadTag, 0x01e, false),
    ("Initialize", TpmRcError::Initialize, 0x100, false),
    ("Failure", TpmRcError::Failure, 0x101, false),
    ("Sequence", TpmRcError::Sequence, 0x103, false),
    ("CommandSize", TpmRcError::CommandSize, 0x142, false),
    ("CommandCode", TpmRcError::CommandCode, 0x143, false),
    ("ContextGap", TpmRcError::ContextGap, 0x901, true),
    ("ObjectMemory", TpmRcError::ObjectMemory, 0x902, true),
    ("SessionMemory", TpmRcError::SessionMemory, 0x903, true),
    ("Memory", TpmRcError::Memory, 0x904, true),
];
const POS: [ErrorPosition; 15] = [
    ErrorPosition::Pos1,
    ErrorPosition::Pos2,
    ErrorPosition::Pos3,
    ErrorPosition::Pos4,
    ErrorPosition::Pos5,
    ErrorPosition::Pos6,
    ErrorPosition::Pos7,
    ErrorPosition::Pos8,
    ErrorPosition::Pos9,
    ErrorPosition::PosA,
    ErrorPosition::PosB,
    ErrorPosition::PosC,
    ErrorPosition::PosD,
    ErrorPosition::PosE,
    ErrorPosition::PosF,
];
type For = fn(ErrorType, ErrorPosition) -> TpmRcError;
const FORS: &[(&str, For, u32)] = &[
    ("Asymmetric", TpmRcError::AsymmetricFor, 0x081),
    ("Value", TpmRcError::ValueFor, 0x084),
    ("Size", TpmRcError::SizeFor, 0x095),
    ("Selector", TpmRcError::SelectorFor, 0x098),
];

/// A TPM refuses a command with a code the library can name; the caller reads it back.
fn codes() {
    op_done();
    nontrivial();
    if chance(1, 2) {
        let (name, e, want, warn) = pick(NAMED);
        note(name.as_bytes());
        tr!("{name} is {:#x}", e.get());
        ensure!(e.get() == want, "wrong-constant", "TpmRcError::{name} is {:#x}, the specification says {want:#x}", e.get());
        ensure!(TssError::from(e).get() == want, "wrong-constant", "TpmRcError::{name} becomes {:#x} as a TssError", TssError::from(e).get());
        ensure!(e.is_warning() == warn, "wrong-warning", "TpmRcError::{name}.is_warning() is {}", e.is_warning());
        ensure!(e.format1_parameter().is_none(), "wrong-decode", "TpmRcError::{name} decodes to {:?}", e.format1_parameter());
        let k = draw(11) as usize;
        let code = [2u32, 3, 4, 5, 6, 8, 16, 17, 18, 20, 22][k];
        macro_rules! layer { ($t:ident, $l:expr) => {
            let x = TssError::from([$t::GeneralFailure, $t::BadParameter, $t::InternalError, $t::OutOfMemory, $t::NotImplemented, $t::KeyAlredyRegistered,
                $t::TpmUnexpected, $t::CommFailure, $t::Timeout, $t::Unsupported, $t::Canceled][k]).get();
            ensure!(x == code | $l << 12, "wrong-constant", "{} code {code} is {x:#x}", stringify!($t));
        } }
        layer!(TssTddlError, 1);
        layer!(TssTcsError, 2);
        layer!(TssTspError, 3);
        return;
    }
    let (name, f, base) = pick(FORS);
    let on = pick(&[ErrorType::Handle, ErrorType::Parameter, ErrorType::Session]);
    // handles and sessions are numbered 1-7, parameters 1-15
    let pos = draw(if on == ErrorType::Parameter { 15 } else { 7 }) as usize;
    note(&[base as u8, pos as u8, on as u8]);
    let Some(e) = sut("format-one", || f(on, POS[pos])) else { return };
    let flag = match on {
        ErrorType::Handle => 0,
        ErrorType::Parameter => 0x40,
        ErrorType::Session => 0x800,
    };
    let want = base | flag | (pos as u32 + 1) << 8;
    tr!("{name}For({on:?}, {:?}) is {:#x}", POS[pos], e.get());
    ensure!(e.get() == want, "wrong-constant", "{name}For({on:?}, {:?}) is {:#x}, the specification says {want:#x}", POS[pos], e.get());
    ensure!(e.format1_parameter() == Some((on, POS[pos])), "wrong-decode", "{name}For({on:?}, {:?}) decodes to {:?}", POS[pos], e.format1_parameter());
    ensure!(!e.is_warning(), "wrong-warning", "{name}For({on:?}, {:?}) is reported as a warning", POS[pos]);
}

// ------------------------------------------------------------------ registration

const REAL: &[&str] = &[
    "tpm2-client run_command, run_command_with_handles, get_capability, sessions; tpm2-rs-base commands and structures; tpm2-rs-marshalable",
    "tpm2-client TcpConnection (in about one run of five)",
];
const STUB: &[&str] = &["the TPM (drawn answers)", "the connection (in-memory) or the network below TcpConnection", "non-password sessions (recording, scripted verdicts)"];
const ASSUME: &[&str] = &["reference encoder and parser of commands and responses in sim/src/client.rs"];

pub const C08: Prop = Prop {
    id: "C08",
    scenario: c08,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "1-4 commands per run: 10 vendor codes with drawn handles and parameters, 8 library structures as parameters, the 4 real commands; 0-3 sessions; drawn answers (good, error code, transport error); non-trivial: handles or sessions present",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C09: Prop = Prop {
    id: "C09",
    scenario: c09,
    quick: 3_000_000,
    thorough: 40_000_000,
    rule: "1-3 commands per run, sized to end within 9 bytes of the 4096-byte buffer or far beyond, crossing in handles, sessions or parameters, or with a value that has no encoding; non-trivial: near or beyond the limit",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C10: Prop = Prop {
    id: "C10",
    scenario: c10,
    quick: 3_600_000,
    thorough: 60_000_000,
    rule: "1-5 commands per run with well-formed answers of up to 4096 bytes, stale bytes behind the response, failed calls in between; non-trivial: a well-formed answer was judged",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C11: Prop = Prop {
    id: "C11",
    scenario: c11,
    quick: 4_800_000,
    thorough: 80_000_000,
    rule: "1-4 commands per run whose answers are truncated, extended, duplicated, corrupted, or carry wrong size, parameter size or tag; non-trivial: an answer was damaged",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C12: Prop = Prop {
    id: "C12",
    scenario: c12,
    quick: 3_600_000,
    thorough: 60_000_000,
    rule: "1-4 commands per run with 1-3 sessions (recording sessions with drawn verdicts, real password sessions), authorizations missing, stripped, swapped or damaged; non-trivial: every run",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};
pub const C13: Prop = Prop {
    id: "C13",
    scenario: c13,
    quick: 4_500_000,
    thorough: 60_000_000,
    rule: "1-5 commands per run answered with drawn response codes inside well-formed or damaged responses, or with transport errors; named codes and format-one codes; non-trivial: every run",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

#[path = "e2e.rs"]
pub mod e2e;
