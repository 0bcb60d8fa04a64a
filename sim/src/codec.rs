//! C23: the borrowing codec of the `tpm2` crate between two nodes with their own limits.
//!
//! A sender encodes a drawn history of values into a bounded buffer; the bytes cross a simulated
//! wire (segments, truncation, corruption); a receiver decodes whatever has arrived so far after
//! every segment, with its own limits. Both sides run real code; an independent reference decides
//! what they must do.

use crate::engine::*;
use crate::runner::Prop;
use crate::{ensure, tr};
use tpm2::errors::{MarshalError, UnmarshalError};
use tpm2::{Alg, Limits, Marshal, MarshalArray, TpmiAlgHash, TpmtHa, Unmarshal, UnmarshalArray};

/// (wire value, digest size) of every hash algorithm of TPMI_ALG_HASH.
const HASHES: [(u16, usize, TpmiAlgHash); 8] = [
    (0x0004, 20, TpmiAlgHash::Sha1),
    (0x000b, 32, TpmiAlgHash::Sha256),
    (0x000c, 48, TpmiAlgHash::Sha384),
    (0x000d, 64, TpmiAlgHash::Sha512),
    (0x0012, 32, TpmiAlgHash::Sm3_256),
    (0x0027, 32, TpmiAlgHash::Sha3_256),
    (0x0028, 48, TpmiAlgHash::Sha3_384),
    (0x0029, 64, TpmiAlgHash::Sha3_512),
];
fn index(a: u16) -> Option<usize> {
    HASHES.iter().position(|h| h.0 == a)
}

/// The hash algorithms an implementation supports: any subset.
#[derive(Clone, Copy, Debug)]
struct Set(u8);
impl Set {
    fn has(self, i: usize) -> bool {
        self.0 >> i & 1 == 1
    }
}
impl Limits for Set {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        HASHES.iter().position(|x| x.2 == h).is_some_and(|i| self.has(i))
    }
}
fn gen_set() -> Set {
    Set(match draw(4) {
        0 => 0xff,
        1 => 1 << draw(8),
        2 => !(1 << draw(8)),
        _ => draw(256) as u8,
    })
}

#[derive(Clone, Debug, PartialEq)]
enum Value {
    Int(Ty, u64),
    Alg(u16),
    Hash(usize),
    /// algorithm index (0-3) and digest
    Ha(usize, Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
}
use Ty::*;
const TYS: [Ty; 8] = [U8, U16, U32, U64, I8, I16, I32, I64];
impl Ty {
    fn size(self) -> usize {
        match self {
            U8 | I8 => 1,
            U16 | I16 => 2,
            U32 | I32 => 4,
            U64 | I64 => 8,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Int(Ty),
    Alg,
    Hash,
    Ha,
}
impl Value {
    fn kind(&self) -> Kind {
        match self {
            Value::Int(t, _) => Kind::Int(*t),
            Value::Alg(_) => Kind::Alg,
            Value::Hash(_) => Kind::Hash,
            Value::Ha(..) => Kind::Ha,
        }
    }
    fn encode(&self) -> Vec<u8> {
        match self {
            Value::Int(t, v) => v.to_be_bytes()[8 - t.size()..].to_vec(),
            Value::Alg(a) => a.to_be_bytes().to_vec(),
            Value::Hash(i) => HASHES[*i].0.to_be_bytes().to_vec(),
            Value::Ha(i, d) => {
                let mut o = HASHES[*i].0.to_be_bytes().to_vec();
                o.extend_from_slice(d);
                o
            }
        }
    }
    fn generate() -> Value {
        match draw(8) {
            0 | 1 => {
                let t = pick(&TYS);
                Value::Int(t, int(t.size() as u32 * 8))
            }
            2 => Value::Alg(if chance(1, 2) { HASHES[draw(8) as usize].0 } else { int(16) as u16 }),
            3 => Value::Hash(draw(8) as usize),
            _ => {
                let i = draw(4) as usize;
                let mut d = bytes(HASHES[i].1);
                if chance(1, 6) {
                    // digests that look like the start of another value
                    let k = draw(4) as usize;
                    d[..2].copy_from_slice(&HASHES[k].0.to_be_bytes());
                }
                Value::Ha(i, d)
            }
        }
    }
}
fn ha(i: usize, d: &[u8]) -> TpmtHa<'_> {
    match i {
        0 => TpmtHa::Sha1(d.try_into().expect("20")),
        1 => TpmtHa::Sha256(d.try_into().expect("32")),
        2 => TpmtHa::Sha384(d.try_into().expect("48")),
        _ => TpmtHa::Sha512(d.try_into().expect("64")),
    }
}

// ------------------------------------------------------------------ sender

struct Sizes {
    exact: usize,
    max: usize,
}
fn put<T: Marshal>(v: &T, l: Set, buf: &mut [u8]) -> (Result<usize, MarshalError>, Sizes) {
    let s = Sizes { exact: v.marshaled_size(), max: T::marshaled_size_max(l) };
    let (at, len) = (buf.as_ptr() as usize, buf.len());
    let r = v.marshal(l, buf).map(|rest| {
        let n = len.wrapping_sub(rest.len());
        ensure!(rest.is_empty() || rest.as_ptr() as usize == at.wrapping_add(n), "wrong-rest", "the returned buffer is not the unwritten tail");
        n
    });
    (r, s)
}
fn send(v: &Value, l: Set, buf: &mut [u8]) -> (Result<usize, MarshalError>, Sizes) {
    match v {
        Value::Int(U8, x) => put(&(*x as u8), l, buf),
        Value::Int(U16, x) => put(&(*x as u16), l, buf),
        Value::Int(U32, x) => put(&(*x as u32), l, buf),
        Value::Int(U64, x) => put(x, l, buf),
        Value::Int(I8, x) => put(&(*x as i8), l, buf),
        Value::Int(I16, x) => put(&(*x as i16), l, buf),
        Value::Int(I32, x) => put(&(*x as i32), l, buf),
        Value::Int(I64, x) => put(&(*x as i64), l, buf),
        Value::Alg(a) => put(&Alg(*a), l, buf),
        Value::Hash(i) => put(&HASHES[*i].2, l, buf),
        Value::Ha(i, d) => put(&ha(*i, d), l, buf),
    }
}

// ------------------------------------------------------------------ receiver

fn get<'a, T: Unmarshal<'a> + Copy>(mut dest: T, l: Set, b: &'a [u8]) -> (Result<usize, UnmarshalError>, T) {
    let r = dest.unmarshal(l, b).map(|rest| {
        let n = b.len().wrapping_sub(rest.len());
        ensure!(rest.is_empty() || rest.as_ptr() as usize == (b.as_ptr() as usize).wrapping_add(n), "wrong-rest", "the returned buffer is not the undecoded tail");
        n
    });
    (r, dest)
}
macro_rules! recv_int {
    ($t:ty, $ty:expr, $old:expr, $l:expr, $b:expr) => {{
        let (r, v) = get::<$t>($old as $t, $l, $b);
        let mask = u64::MAX >> (64 - 8 * size_of::<$t>() as u32);
        (r, Value::Int($ty, v as u64 & mask))
    }};
}
/// Decodes one value of this kind into a destination that holds `old`.
fn recv(old: &Value, l: Set, b: &[u8]) -> (Result<usize, UnmarshalError>, Option<Value>) {
    let (r, v) = match old {
        Value::Int(U8, o) => recv_int!(u8, U8, *o, l, b),
        Value::Int(U16, o) => recv_int!(u16, U16, *o, l, b),
        Value::Int(U32, o) => recv_int!(u32, U32, *o, l, b),
        Value::Int(U64, o) => recv_int!(u64, U64, *o, l, b),
        Value::Int(I8, o) => recv_int!(i8, I8, *o, l, b),
        Value::Int(I16, o) => recv_int!(i16, I16, *o, l, b),
        Value::Int(I32, o) => recv_int!(i32, I32, *o, l, b),
        Value::Int(I64, o) => recv_int!(i64, I64, *o, l, b),
        Value::Alg(o) => {
            let (r, v) = get(Alg(*o), l, b);
            (r, Value::Alg(v.0))
        }
        Value::Hash(o) => {
            let (r, v) = get(HASHES[*o].2, l, b);
            return (r, HASHES.iter().position(|h| h.2 == v).map(Value::Hash));
        }
        Value::Ha(i, d) => {
            let (r, v) = get(ha(*i, d), l, b);
            return (r, index(v.hash_alg() as u16).map(|i| Value::Ha(i, v.digest().to_vec())));
        }
    };
    (r, Some(v))
}

#[derive(Debug, PartialEq)]
enum Must {
    Refuse,
    Value(usize, Value),
    /// A digest of a hash algorithm the codec may or may not know.
    Maybe(usize, Value),
}
fn reference(k: Kind, l: Set, b: &[u8]) -> Must {
    let num = |n: usize| b.get(..n).map(|x| x.iter().fold(0u64, |v, y| v << 8 | u64::from(*y)));
    match k {
        Kind::Int(t) => num(t.size()).map_or(Must::Refuse, |v| Must::Value(t.size(), Value::Int(t, v))),
        Kind::Alg => num(2).map_or(Must::Refuse, |v| Must::Value(2, Value::Alg(v as u16))),
        Kind::Hash => num(2).and_then(|v| index(v as u16)).map_or(Must::Refuse, |i| Must::Value(2, Value::Hash(i))),
        Kind::Ha => {
            let Some(i) = num(2).and_then(|v| index(v as u16)) else { return Must::Refuse };
            let n = HASHES[i].1;
            if !l.has(i) || b.len() < 2 + n {
                return Must::Refuse;
            }
            let v = Value::Ha(i, b[2..2 + n].to_vec());
            if i < 4 { Must::Value(2 + n, v) } else { Must::Maybe(2 + n, v) }
        }
    }
}
/// Another value of the same kind, as the destination's earlier contents.
fn earlier(k: Kind) -> Value {
    match k {
        Kind::Int(t) => Value::Int(t, int(t.size() as u32 * 8)),
        Kind::Alg => Value::Alg(int(16) as u16),
        Kind::Hash => Value::Hash(draw(8) as usize),
        Kind::Ha => {
            let i = draw(4) as usize;
            Value::Ha(i, bytes(HASHES[i].1))
        }
    }
}
/// One decode attempt on the bytes that have arrived. Some(n): n bytes were consumed.
fn attempt(k: Kind, l: Set, b: &[u8]) -> Option<usize> {
    op_done();
    let old = earlier(k);
    let (r, now) = sut("unmarshal", || recv(&old, l, b))?;
    let must = reference(k, l, b);
    note(&[r.is_ok() as u8]);
    let Some(now) = now else {
        fail("wrong-value", format!("{k:?}: decoding {} gives an algorithm that does not exist", hex(b)));
        return None;
    };
    match (r, must) {
        (Err(_), Must::Refuse | Must::Maybe(..)) => {
            ensure!(now == old, "changed-by-refusal", "{k:?}: a refused decode of {} changed the destination from {old:?} to {now:?}", hex(b));
            probe("decode_refused");
            None
        }
        (Err(_), Must::Value(_, v)) => {
            fail("refused", format!("{k:?}: decoding {} was refused with {l:?}, it is {v:?}", hex(b)));
            None
        }
        (Ok(_), Must::Refuse) => {
            fail("accepted", format!("{k:?}: decoding {} with {l:?} gave {now:?} instead of an error", hex(b)));
            None
        }
        (Ok(n), Must::Value(want, v) | Must::Maybe(want, v)) => {
            ensure!(now == v, "wrong-value", "{k:?}: decoding {} gave {now:?} instead of {v:?}", hex(b));
            ensure!(n == want, "wrong-rest", "{k:?}: decoding {} consumed {n} bytes instead of {want}", hex(b));
            probe("decoded");
            Some(n)
        }
    }
}

fn c23() {
    nontrivial();
    let (ls, lr) = (gen_set(), gen_set());
    if chance(1, 16) {
        statics(ls);
        return;
    }
    // --- the sender fills its buffer
    let count = 1 + draw(6);
    let mut vals: Vec<Value> = (0..count).map(|_| Value::generate()).collect();
    let total: usize = vals.iter().map(|v| v.encode().len()).sum();
    let room = match draw(5) {
        0 => total,
        1 => total + draw(40) as usize,
        2 => total - 1 - draw((total as u64).min(20)).min(total as u64 - 1) as usize,
        3 => draw(total as u64 + 1) as usize,
        _ => total + 200,
    };
    if room < total {
        fault("send_buffer_full");
    }
    let fill = pick(&[0u8, 0xff, 0x5a]);
    let mut buf = vec![fill; room];
    let mut used = 0;
    let mut sent: Vec<Value> = Vec::new();
    for v in vals.drain(..) {
        if failed() {
            return;
        }
        op_done();
        let want = v.encode();
        let allowed = !matches!(&v, Value::Ha(i, _) if !ls.has(*i));
        let fits = used + want.len() <= room;
        let head = buf[..used].to_vec();
        let Some((r, s)) = sut("marshal", || send(&v, ls, &mut buf[used..])) else { return };
        tr!("sender {ls:?}: {v:?} into {} bytes -> {r:?}", room - used);
        note(&[r.is_ok() as u8, want.len() as u8]);
        ensure!(buf[..used] == head, "clobbered", "encoding changed bytes before its buffer");
        ensure!(s.exact == want.len(), "wrong-size", "{v:?}: the announced size is {}, the encoding has {} bytes", s.exact, want.len());
        if allowed {
            ensure!(s.max >= want.len(), "wrong-size", "{v:?}: the announced maximum {} with {ls:?} is less than its size", s.max);
        } else {
            fault("sender_lacks_algorithm");
        }
        match r {
            Ok(n) => {
                ensure!(allowed, "accepted", "{v:?} was encoded although {ls:?} does not support it");
                ensure!(fits, "accepted", "{v:?} was encoded into {} bytes", room - used);
                ensure!(n == want.len(), "wrong-encoding", "{v:?}: {n} bytes written instead of {}", want.len());
                if failed() {
                    return;
                }
                ensure!(buf[used..used + n] == want, "wrong-encoding", "{v:?} was encoded as {} instead of {}", hex(&buf[used..used + n]), hex(&want));
                ensure!(buf[used + n..].iter().all(|b| *b == fill), "clobbered", "{v:?}: bytes behind the encoding were written");
                used += n;
                sent.push(v);
            }
            Err(_) => {
                ensure!(!(allowed && fits), "refused", "{v:?} was refused with {ls:?} and {} bytes of room", room - used);
                probe("encode_refused");
                // whatever it left there is overwritten by the next value
                buf[used..].fill(fill);
            }
        }
    }
    // --- the wire
    let mut wire = buf[..used].to_vec();
    let plan: Vec<(Kind, usize)> = sent.iter().map(|v| (v.kind(), v.encode().len())).collect();
    match draw(5) {
        0 | 1 => {}
        2 if used > 0 => {
            fault("truncated");
            wire.truncate(draw(used as u64) as usize);
        }
        3 if used > 0 => {
            fault("corrupted");
            let at = draw(used as u64) as usize;
            wire[at] ^= 1 << draw(8);
        }
        4 if used > 1 => {
            // an algorithm identifier becomes another
            fault("corrupted_tag");
            let mut at = 0;
            for (k, n) in &plan {
                if matches!(k, Kind::Ha | Kind::Hash) && chance(1, 2) {
                    let a = match draw(3) {
                        0 => HASHES[draw(8) as usize].0,
                        1 => pick(&[0u16, 0x0400, 0x0b00, 0x0010, 0x0026, 0x002a, 0x000e, 0x000a, 0x0005, 0x0013]),
                        _ => int(16) as u16,
                    };
                    wire[at..at + 2].copy_from_slice(&a.to_be_bytes());
                }
                at += n;
            }
        }
        _ => {}
    }
    if chance(1, 3) {
        let n = 1 + draw(70) as usize;
        wire.extend(bytes(n));
    }
    tr!("wire: {}", hex(&wire));
    // --- the receiver decodes after every segment
    let mut at = 0;
    let mut have = 0;
    for (k, n) in plan {
        let mut done = false;
        while !done {
            if failed() {
                return;
            }
            tr!("receiver {lr:?}: {k:?} from {} of {} bytes", have - at, wire.len() - at);
            if let Some(m) = attempt(k, lr, &wire[at..have]) {
                at += m;
                break;
            }
            if have == wire.len() {
                done = true;
            } else {
                fault("segment");
                have += match draw(4) {
                    0 => 1,
                    1 => 1 + draw(8) as usize,
                    2 => n,
                    _ => wire.len() - have,
                };
                have = have.min(wire.len());
            }
        }
        if done {
            // refused for good: the application skips what the sender announced
            at = (at + n).min(wire.len());
            have = have.max(at);
        }
    }
    // --- whatever follows
    if at < wire.len() && chance(1, 2) {
        let k = pick(&[Kind::Ha, Kind::Hash, Kind::Alg, Kind::Int(U16)]);
        attempt(k, lr, &wire[at..]);
    }
}

/// Sizes, conversions and the array forms.
fn statics(l: Set) {
    probe("limits_and_conversions");
    op_done();
    let want = (0..8).filter(|i| l.has(*i)).map(|i| HASHES[i].1).max().unwrap_or(0);
    let Some((a, b)) = sut("max_digest_size", || (l.max_digest_size(), TpmtHa::marshaled_size_max(l))) else { return };
    note(&[l.0]);
    ensure!(a == want, "wrong-maximum", "max_digest_size with {l:?} is {a} instead of {want}");
    ensure!(b == want + 2, "wrong-maximum", "the largest tagged digest with {l:?} is announced as {b} instead of {}", want + 2);
    let i = draw(8) as usize;
    let (id, n, h) = HASHES[i];
    ensure!(h as u16 == id && h.digest_size() == n, "wrong-constant", "{h:?} has identifier {:#x} and digest size {}", h as u16, h.digest_size());
    ensure!(Alg::from(h).0 == id, "wrong-constant", "{h:?} converts to {:?}", Alg::from(h));
    let a = if chance(1, 2) { id } else { int(16) as u16 };
    let back = TpmiAlgHash::try_from(Alg(a)).ok().map(|h| h as u16);
    ensure!(back == index(a).map(|i| HASHES[i].0), "wrong-constant", "algorithm {a:#x} converts to {back:x?}");
    let mut arr = [0; 2];
    h.marshal_array(&mut arr);
    ensure!(arr == id.to_be_bytes(), "wrong-encoding", "{h:?} was encoded as {}", hex(&arr));
    ensure!(TpmiAlgHash::unmarshal_array(&arr) == Ok(h), "wrong-value", "{} does not decode to {h:?}", hex(&arr));
    // a raw digest
    let d: [u8; 32] = bytes(32).try_into().expect("32");
    let room = draw(40) as usize;
    let mut buf = vec![0; room];
    let Some((r, s)) = sut("marshal", || put(&d, l, &mut buf)) else { return };
    ensure!(s.exact == 32 && s.max == 32, "wrong-size", "32 bytes are announced as {} and {}", s.exact, s.max);
    ensure!(r.is_ok() == (room >= 32), "wrong-size", "32 bytes into {room}: {r:?}");
    if r.is_ok() {
        ensure!(r == Ok(32) && buf[..32] == d, "wrong-encoding", "raw bytes were encoded as {}", hex(&buf));
    }
}

pub const C23: Prop = Prop {
    id: "C23",
    scenario: c23,
    quick: 12_000_000,
    thorough: 150_000_000,
    rule: "1-6 values per run from a sender to a receiver, each with one of 256 sets of supported hash algorithms; drawn buffer room, segmentation with a decode attempt after every segment, truncation, corruption, foreign algorithm identifiers; non-trivial: every run",
    real: &["tpm2 crate: Marshal/Unmarshal, MarshalArray/UnmarshalArray, TpmtHa, TpmiAlgHash, Alg, Limits"],
    stub: &["the byte stream between the two nodes"],
    assumptions: &["reference encoder and decoder in sim/src/codec.rs"],
};
