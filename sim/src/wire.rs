//! C14: TPM structures on the wire.
//!
//! For every structure there is an independent description of its TPM 2.0 layout (written as
//! literal numbers from the specification, not taken from the library): a generator of well-formed
//! encodings, a reference parser that says whether a byte string is a well-formed encoding and how
//! long it is, and a walk that compares what the decoded value exposes with the bytes that were
//! sent. Encodings travel from a simulated peer to the library over a link that truncates,
//! corrupts and appends.

use crate::engine::*;
use crate::runner::Prop;
use crate::{ensure, tr};
use std::fmt::Debug;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

pub type Chk = Result<(), String>;

pub trait Wire: Marshalable + Sized {
    /// Appends a drawn well-formed encoding.
    fn generate(o: &mut Vec<u8>);
    /// Reference parser: true and `pos` advanced if a well-formed encoding starts at `pos`.
    fn parse(b: &[u8], pos: &mut usize) -> bool;
    /// Compares what the value exposes with the well-formed encoding at `pos`.
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk;
}

pub fn take<'a>(b: &'a [u8], pos: &mut usize, n: usize) -> Option<&'a [u8]> {
    let end = pos.checked_add(n)?;
    let r = b.get(*pos..end)?;
    *pos = end;
    Some(r)
}
pub fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | u64::from(*x))
}
fn put(o: &mut Vec<u8>, v: u64, n: usize) {
    o.extend_from_slice(&v.to_be_bytes()[8 - n..]);
}
/// Encodes with the library, for values whose inside is private.
pub fn enc<T: Marshalable>(v: &T) -> Result<Vec<u8>, String> {
    let mut buf = vec![0u8; 16384];
    let n = v.try_marshal(&mut buf).map_err(|e| format!("encoding failed: {e:?}"))?;
    buf.truncate(n);
    Ok(buf)
}
fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Chk {
    if got == want { Ok(()) } else { Err(format!("{what} is {got:?}, the wire says {want:?}")) }
}
fn opaque<T: Wire>(v: &T, b: &[u8], pos: &mut usize) -> Chk {
    let from = *pos;
    if !T::parse(b, pos) {
        return Err("not well-formed".into());
    }
    let e = enc(v)?;
    if e != b[from..*pos] {
        return Err(format!("encodes as {} but was sent as {}", hex(&e), hex(&b[from..*pos])));
    }
    Ok(())
}

macro_rules! ints { ($($t:ty: $n:literal),*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { put(o, int($n * 8), $n); }
        fn parse(b: &[u8], pos: &mut usize) -> bool { take(b, pos, $n).is_some() }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            same(stringify!($t), *self, be(take(b, pos, $n).ok_or("short")?) as $t)
        }
    } )* } }
ints!(u8: 1, u16: 2, u32: 4, u64: 8, i8: 1, i16: 2, i32: 4, i64: 8);

// newtypes over an integer: N(pub int)
macro_rules! news { ($($t:ident($i:ty) $vals:expr;)*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) {
            let vals: &[u64] = &$vals;
            if !vals.is_empty() && chance(2, 3) { put(o, pick(vals), size_of::<$i>()); } else { <$i>::generate(o) }
        }
        fn parse(b: &[u8], pos: &mut usize) -> bool { <$i>::parse(b, pos) }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            self.0.check(b, pos).map_err(|e| format!("{}: {e}", stringify!($t)))
        }
    } )* } }
const HASHES: [u64; 8] = [0x4, 0xb, 0xc, 0xd, 0x12, 0x27, 0x28, 0x29];
news! {
    TpmaLocality(u8) []; TpmaNv(u32) []; TpmiAlgHash(u16) HASHES; TpmiAlgKdf(u16) [7, 0x20, 0x21, 0x22];
    TpmiAlgPublic(u16) [1, 8, 0x23, 0x25]; TpmiAlgSymMode(u16) [0x3f, 0x40, 0x41, 0x42, 0x43, 0x44];
    TpmiAlgSymObject(u16) [3, 6, 0x13, 0x26]; TpmiAlgKeyedhashScheme(u16) [5, 0xa];
    TpmiAlgRsaScheme(u16) [0x14, 0x15, 0x16, 0x17]; TpmiAlgSigScheme(u16) [0x14, 0x16, 0x18];
    TpmiAlgEccScheme(u16) [0x18, 0x19, 0x1d]; TpmiAlgAsymScheme(u16) [0x14, 0x17, 0x1b];
    TpmiYesNo(u8) [0, 1]; TpmiStAttest(u16) [0x8017, 0x8018];
    TpmaObject(u32) []; TpmaAlgorithm(u32) []; TpmaSession(u8) []; TpmaCc(u32) [];
    TpmiStCommandTag(u16) [0x8001, 0x8002];
    TpmAlgId(u16) [1, 4, 0xb, 0x10, 0x23]; TpmEccCurve(u16) [0, 1, 3, 0x20]; TpmCc(u32) [0x11f, 0x17b, 0x20000000];
    TpmSt(u16) [0x8001, 0x8002]; TpmSu(u16) [0, 1]; TpmCap(u32) [0, 1, 6, 9]; TpmPt(u32) [0x100, 0x200];
    TpmPtPcr(u32) [0, 1]; TpmHandle(u32) [0x40000001, 0x40000007, 0x80000000]; TpmGenerated(u32) [0xff544347];
}
// newtypes whose value is private
macro_rules! hidden { ($($t:ident($i:ty);)*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { <$i>::generate(o) }
        fn parse(b: &[u8], pos: &mut usize) -> bool { <$i>::parse(b, pos) }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk { opaque(self, b, pos) }
    } )* } }
hidden! { TpmiRhNvIndex(u32); TpmiShAuthSession(u32); TpmiEccCurve(u16); TpmiAesKeyBits(u16); TpmiSm4KeyBits(u16);
    TpmiCamelliaKeyBits(u16); TpmiRsaKeyBits(u16); }
impl Wire for TpmHc {
    fn generate(o: &mut Vec<u8>) {
        u32::generate(o)
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        u32::parse(b, pos)
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        self.get().check(b, pos)
    }
}
impl Wire for () {
    fn generate(_: &mut Vec<u8>) {}
    fn parse(_: &[u8], _: &mut usize) -> bool {
        true
    }
    fn check(&self, _: &[u8], _: &mut usize) -> Chk {
        Ok(())
    }
}
impl Wire for TpmsEmpty {
    fn generate(_: &mut Vec<u8>) {}
    fn parse(_: &[u8], _: &mut usize) -> bool {
        true
    }
    fn check(&self, _: &[u8], _: &mut usize) -> Chk {
        Ok(())
    }
}
impl<const N: usize> Wire for [u8; N] {
    fn generate(o: &mut Vec<u8>) {
        o.extend(bytes(N))
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        take(b, pos, N).is_some()
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        same("array", &self[..], take(b, pos, N).ok_or("short")?)
    }
}

fn gen_2b(o: &mut Vec<u8>, max: usize) {
    let n = size(max);
    put(o, n as u64, 2);
    o.extend(bytes(n));
}
// sized buffers: (capacity the library announces must be at least the second number)
macro_rules! bufs { ($($t:ident >= $min:expr;)*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { gen_2b(o, <$t as Tpm2bSimple>::MAX_BUFFER_SIZE.min(u16::MAX as usize)) }
        fn parse(b: &[u8], pos: &mut usize) -> bool {
            let Some(n) = take(b, pos, 2) else { return false };
            let n = be(n) as usize;
            n <= <$t as Tpm2bSimple>::MAX_BUFFER_SIZE && take(b, pos, n).is_some()
        }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            let n = be(take(b, pos, 2).ok_or("short")?) as usize;
            let want = take(b, pos, n).ok_or("short")?;
            same("size", self.get_size() as usize, n)?;
            same("buffer", self.get_buffer(), want)?;
            same("as_ref", self.as_ref(), want)
        }
    }
    impl Buf for $t { const MIN: usize = $min; }
    )* } }
pub trait Buf: Wire + Tpm2bSimple + AsRef<[u8]> + Default + PartialEq + Debug {
    const MIN: usize;
}
bufs! {
    Tpm2bDigest >= 64; Tpm2bData >= 64; Tpm2bEvent >= 1024; Tpm2bMaxBuffer >= 1024; Tpm2bMaxNvBuffer >= 2048; Tpm2bIv >= 16;
    Tpm2bName >= 66; Tpm2bAttest >= 2 * 68 + 2; Tpm2bSymKey >= 32; Tpm2bLabel >= 32; Tpm2bSensitiveData >= 256;
    Tpm2bSensitiveCreate >= 66 + 258; Tpm2bPublicKeyRsa >= 512; Tpm2bPrivateKeyRsa >= 256; Tpm2bEccParameter >= 128;
    Tpm2bEncryptedSecret >= 512; Tpm2bPublic >= 600; Tpm2bTemplate >= 600; Tpm2bPrivateVendorSpecific >= 1280;
    Tpm2bPrivate >= 132; Tpm2bIdObject >= 132; Tpm2bContextSensitive >= 5120; Tpm2bContextData >= 5188;
    Tpm2bCreationData >= 300;
}

macro_rules! structs { ($($t:ident { $($f:ident: $ft:ty),* })*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { $( <$ft as Wire>::generate(o); )* }
        fn parse(b: &[u8], pos: &mut usize) -> bool { $( <$ft as Wire>::parse(b, pos) && )* true }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            $( <$ft as Wire>::check(&self.$f, b, pos).map_err(|e| format!("{}.{}: {e}", stringify!($t), stringify!($f)))?; )*
            Ok(())
        }
    } )* } }
// structures whose fields are private
macro_rules! closed { ($($t:ident { $($ft:ty),* })*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { $( <$ft as Wire>::generate(o); )* }
        fn parse(b: &[u8], pos: &mut usize) -> bool { $( <$ft as Wire>::parse(b, pos) && )* true }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk { opaque(self, b, pos) }
    } )* } }
structs! {
    TpmsClockInfo { clock: u64, reset_count: u32, restart_count: u32, safe: TpmiYesNo }
    TpmsQuoteInfo { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest }
    TpmsCreationInfo { object_name: Tpm2bName, creation_hash: Tpm2bDigest }
    TpmsCertifyInfo { name: Tpm2bName, qualified_name: Tpm2bName }
    TpmsCommandAuditInfo { audit_counter: u64, digest_alg: u16, audit_digest: Tpm2bDigest, command_digest: Tpm2bDigest }
    TpmsSessionAuditInfo { exclusive_session: TpmiYesNo, session_digest: Tpm2bDigest }
    TpmsTimeInfo { time: u64, clock_info: TpmsClockInfo }
    TpmsTimeAttestInfo { time: TpmsTimeInfo, firmware_version: u64 }
    TpmsNvCertifyInfo { index_name: Tpm2bName, offset: u16, nv_contents: Tpm2bMaxNvBuffer }
    TpmsDerive { label: Tpm2bLabel, context: Tpm2bLabel }
    TpmsSensitiveCreate { user_auth: Tpm2bAuth, data: Tpm2bSensitiveData }
    TpmsEccPoint { x: Tpm2bEccParameter, y: Tpm2bEccParameter }
    TpmsSchemeXor { hash_alg: TpmiAlgHash, kdf: TpmiAlgKdf }
    TpmsKeyedHashParms { scheme: TpmtKeyedHashScheme }
    TpmsSymCipherParms { sym: TpmtSymDefObject }
    TpmsSignatureRsa { hash: TpmiAlgHash, sig: Tpm2bPublicKeyRsa }
    TpmsSignatureEcc { hash: TpmiAlgHash, signature_r: Tpm2bEccParameter, signature_s: Tpm2bEccParameter }
    TpmsSchemeHash { hash_alg: TpmiAlgHash }
    TpmsSchemeEcdaa { hash_alg: TpmiAlgHash, count: u16 }
    TpmsRsaParms { symmetric: TpmtSymDefObject, scheme: TpmtRsaScheme, key_bits: TpmiRsaKeyBits, exponent: u32 }
    TpmsEccParms { symmetric: TpmtSymDefObject, scheme: TpmtEccScheme, curve_id: TpmiEccCurve, kdf: TpmtKdfScheme }
    TpmsAsymParms { symmetric: TpmtSymDefObject, scheme: TpmtAsymScheme }
    TpmsAlgProperty { alg: TpmAlgId, alg_properties: TpmaAlgorithm }
    TpmsTaggedProperty { property: TpmPt, value: u32 }
    TpmsAuthCommand { session_handle: TpmiShAuthSession, nonce: Tpm2bNonce, session_attributes: TpmaSession, hmac: Tpm2bAuth }
    TpmsAuthResponse { nonce: Tpm2bNonce, session_attributes: TpmaSession, hmac: Tpm2bData }
    TpmsIdObject { integrity_hmac: Tpm2bDigest, enc_identity: Tpm2bDigest }
    TpmsNvPublic { nv_index: TpmiRhNvIndex, name_alg: TpmiAlgHash, attributes: TpmaNv, auth_policy: Tpm2bDigest, data_size: u16 }
    TpmsContextData { integrity: Tpm2bDigest, encrypted: Tpm2bContextSensitive }
    TpmsCreationData { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest, locality: TpmaLocality, parent_name_alg: TpmAlgId,
        parent_name: Tpm2bName, parent_qualified_name: Tpm2bName, outside_info: Tpm2bData }
    GetCapabilityCmd { capability: TpmCap, property: TpmPt, property_count: u32 }
    GetCapabilityResp { more_data: TpmiYesNo, capability_data: TpmsCapabilityData }
    GetRandomCmd { bytes_requested: u16 }
    GetRandomResp { random_bytes: Tpm2bDigest }
    StartupCmd { startup_type: TpmSu }
}
closed! {
    TpmsTaggedPolicy { TpmHandle, TpmtHa }
    PcrReadCmd { TpmlPcrSelection }
    PcrReadResp { u32, TpmlPcrSelection, TpmlDigest }
}

// a byte count followed by that many octets of PCR selection
const PCR_SELECT_MAX: usize = 4;
fn gen_select(o: &mut Vec<u8>) {
    let n = draw(PCR_SELECT_MAX as u64 + 1);
    put(o, n, 1);
    o.extend(bytes(n as usize));
}
fn parse_select(b: &[u8], pos: &mut usize) -> bool {
    let Some(n) = take(b, pos, 1) else { return false };
    let n = n[0] as usize;
    n <= PCR_SELECT_MAX && take(b, pos, n).is_some()
}
impl Wire for TpmsPcrSelection {
    fn generate(o: &mut Vec<u8>) {
        TpmiAlgHash::generate(o);
        gen_select(o);
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        TpmiAlgHash::parse(b, pos) && parse_select(b, pos)
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        self.hash.check(b, pos)?;
        self.sizeof_select.check(b, pos)?;
        let n = self.sizeof_select as usize;
        same("pcr_select", &self.pcr_select[..n.min(4)], take(b, pos, n).ok_or("short")?)
    }
}
impl Wire for TpmsTaggedPcrSelect {
    fn generate(o: &mut Vec<u8>) {
        TpmPtPcr::generate(o);
        gen_select(o);
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        TpmPtPcr::parse(b, pos) && parse_select(b, pos)
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        opaque(self, b, pos)
    }
}

// counted lists with an accessor
macro_rules! lists { ($($t:ident[$e:ty; $max:expr] $acc:ident;)*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) {
            let n = list_len($max);
            put(o, n as u64, 4);
            for _ in 0..n { <$e>::generate(o); }
        }
        fn parse(b: &[u8], pos: &mut usize) -> bool {
            let Some(n) = take(b, pos, 4) else { return false };
            let n = be(n) as usize;
            n <= $max && (0..n).all(|_| <$e>::parse(b, pos))
        }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            let n = be(take(b, pos, 4).ok_or("short")?) as usize;
            same("count", self.count(), n)?;
            same("number of elements", self.$acc().len(), n)?;
            for (i, e) in self.$acc().iter().enumerate() {
                e.check(b, pos).map_err(|x| format!("{}[{i}]: {x}", stringify!($t)))?;
            }
            Ok(())
        }
    } 
    impl List for $t {
        type E = $e;
        const CAP: usize = $max;
        fn build(e: &[$e]) -> Option<Self> { $t::new(e).ok() }
        fn push(&mut self, e: &$e) -> bool { self.add(e).is_ok() }
    }
    )* } }
pub trait List: Wire + Default + PartialEq + Debug {
    type E: Wire + Copy;
    const CAP: usize;
    fn build(e: &[Self::E]) -> Option<Self>;
    fn push(&mut self, e: &Self::E) -> bool;
}
fn list_len(max: usize) -> usize {
    match draw(8) {
        0 => 0,
        1..=4 => draw(5.min(max as u64 + 1)) as usize,
        5 => max - draw(3.min(max as u64 + 1)) as usize,
        _ => draw(max as u64 + 1) as usize,
    }
}
lists! {
    TpmlPcrSelection[TpmsPcrSelection; 16] pcr_selections;
    TpmlAlgProperty[TpmsAlgProperty; 127] alg_properties;
    TpmlHandle[TpmHandle; 254] handle;
    TpmlCc[TpmCc; 254] command_codes;
    TpmlTaggedTpmProperty[TpmsTaggedProperty; 127] tpm_property;
    TpmlTaggedPcrProperty[TpmsTaggedPcrSelect; 84] pcr_property;
    TpmlEccCurve[TpmEccCurve; 508] ecc_curves;
    TpmlTaggedPolicy[TpmsTaggedPolicy; 14] policies;
    TpmlDigest[Tpm2bDigest; 8] digests;
}
impl Wire for TpmlCca {
    fn generate(o: &mut Vec<u8>) {
        TpmlCc::generate(o)
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        TpmlCc::parse(b, pos)
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        opaque(self, b, pos)
    }
}

// selector followed by the selected variant
macro_rules! variants { ($t:ident: $s:ty { $($v:ident($($f:ident: $ft:ty),*) = $sel:expr),* $(,)? }) => {
    impl Variants for $t {
        const SELS: &'static [u64] = &[$($sel),*];
        fn gen_v(sel: u64, o: &mut Vec<u8>) { let _ = &o; match sel { $( $sel => { $( <$ft as Wire>::generate(o); )* } )* _ => unreachable!() } }
        fn parse_v(sel: u64, b: &[u8], pos: &mut usize) -> bool {
            match sel { $( $sel => { $( <$ft as Wire>::parse(b, pos) && )* true } )* _ => false }
        }
        fn check_v(&self, sel: u64, b: &[u8], pos: &mut usize) -> Chk {
            match self { $( $t::$v($($f),*) => {
                same("variant selector", sel, $sel)?;
                $( Wire::check($f, b, pos).map_err(|e| format!("{}::{}: {e}", stringify!($t), stringify!($v)))?; )*
            } )* }
            Ok(())
        }
    }
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { let s = pick(Self::SELS); put(o, s, size_of::<$s>()); Self::gen_v(s, o) }
        fn parse(b: &[u8], pos: &mut usize) -> bool {
            let Some(s) = take(b, pos, size_of::<$s>()) else { return false };
            Self::parse_v(be(s), b, pos)
        }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            let s = be(take(b, pos, size_of::<$s>()).ok_or("short")?);
            self.check_v(s, b, pos)
        }
    }
} }
pub trait Variants {
    const SELS: &'static [u64];
    fn gen_v(sel: u64, o: &mut Vec<u8>);
    fn parse_v(sel: u64, b: &[u8], pos: &mut usize) -> bool;
    fn check_v(&self, sel: u64, b: &[u8], pos: &mut usize) -> Chk;
}
variants! { TpmtHa: u16 { Sha1(d: [u8; 20]) = 4, Sha256(d: [u8; 32]) = 0xb, Sha384(d: [u8; 48]) = 0xc, Sha512(d: [u8; 64]) = 0xd, Sm3_256(d: [u8; 32]) = 0x12 } }
variants! { TpmuAttest: u16 { Certify(i: TpmsCertifyInfo) = 0x8017, Creation(i: TpmsCreationInfo) = 0x801a, Quote(i: TpmsQuoteInfo) = 0x8018,
    CommandAudit(i: TpmsCommandAuditInfo) = 0x8015, SessionAudit(i: TpmsSessionAuditInfo) = 0x8016, Time(i: TpmsTimeAttestInfo) = 0x8019,
    Nv(i: TpmsNvCertifyInfo) = 0x8014 } }
variants! { TpmtKeyedHashScheme: u16 { Hmac(i: TpmsSchemeHash) = 5, ExclusiveOr(i: TpmsSchemeXor) = 0xa, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtSymDefObject: u16 { Aes(a: TpmiAesKeyBits, b: TpmiAlgSymMode) = 6, Sm4(a: TpmiSm4KeyBits, b: TpmiAlgSymMode) = 0x13,
    Camellia(a: TpmiCamelliaKeyBits, b: TpmiAlgSymMode) = 0x26, ExclusiveOr(a: TpmiAlgHash, b: TpmsEmpty) = 0xa, Null(a: TpmsEmpty, b: TpmsEmpty) = 0x10 } }
variants! { TpmtSignature: u16 { Rsassa(i: TpmsSignatureRsa) = 0x14, Rsapss(i: TpmsSignatureRsa) = 0x16, Ecdsa(i: TpmsSignatureEcc) = 0x18,
    Ecdaa(i: TpmsSignatureEcc) = 0x1a, Sm2(i: TpmsSignatureEcc) = 0x1b, Ecschnorr(i: TpmsSignatureEcc) = 0x1c, Hmac(i: TpmtHa) = 5, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtSigScheme: u16 { Rsassa(i: TpmsSchemeHash) = 0x14, Rsapss(i: TpmsSchemeHash) = 0x16, Ecdsa(i: TpmsSchemeHash) = 0x18,
    Ecdaa(i: TpmsSchemeEcdaa) = 0x1a, Sm2(i: TpmsSchemeHash) = 0x1b, Ecschnorr(i: TpmsSchemeHash) = 0x1c, Hmac(i: TpmsSchemeHash) = 5, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtRsaScheme: u16 { Rsapss(i: TpmsSchemeHash) = 0x16, Rsassa(i: TpmsSchemeHash) = 0x14, Ecdsa(i: TpmsSchemeHash) = 0x18,
    Ecdaa(i: TpmsSchemeEcdaa) = 0x1a, Sm2(i: TpmsSchemeHash) = 0x1b, Ecschnorr(i: TpmsSchemeHash) = 0x1c, Rsaes(i: TpmsEmpty) = 0x15,
    Oaep(i: TpmsSchemeHash) = 0x17, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtEccScheme: u16 { Rsapss(i: TpmsSchemeHash) = 0x16, Rsassa(i: TpmsSchemeHash) = 0x14, Ecdsa(i: TpmsSchemeHash) = 0x18,
    Ecdaa(i: TpmsSchemeEcdaa) = 0x1a, Sm2(i: TpmsSchemeHash) = 0x1b, Ecschnorr(i: TpmsSchemeHash) = 0x1c, Ecdh(i: TpmsSchemeHash) = 0x19,
    Ecmqv(i: TpmsSchemeHash) = 0x1d, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtKdfScheme: u16 { Mgf1(i: TpmsSchemeHash) = 7, Kdf1Sp800_56a(i: TpmsSchemeHash) = 0x20, Kdf2(i: TpmsSchemeHash) = 0x21,
    Kdf1Sp800_108(i: TpmsSchemeHash) = 0x22, Null(i: TpmsEmpty) = 0x10 } }
variants! { TpmtAsymScheme: u16 { Ecdh(i: TpmsSchemeHash) = 0x19, Ecmqv(i: TpmsSchemeHash) = 0x1d, Sm2(i: TpmsSchemeHash) = 0x1b, Rsapss(i: TpmsSchemeHash) = 0x16,
    Rsassa(i: TpmsSchemeHash) = 0x14, Ecdsa(i: TpmsSchemeHash) = 0x18, Ecdaa(i: TpmsSchemeEcdaa) = 0x1a, Ecschnorr(i: TpmsSchemeHash) = 0x1c,
    Rsaes(i: TpmsEmpty) = 0x15, Oaep(i: TpmsSchemeHash) = 0x17, Null(i: TpmsEmpty) = 0x10 } }
variants! { PublicParmsAndId: u16 { KeyedHash(a: TpmsKeyedHashParms, b: Tpm2bDigest) = 8, Sym(a: TpmsSymCipherParms, b: Tpm2bDigest) = 0x25,
    Rsa(a: TpmsRsaParms, b: Tpm2bPublicKeyRsa) = 1, Ecc(a: TpmsEccParms, b: TpmsEccPoint) = 0x23 } }
variants! { TpmuSensitiveComposite: u16 { Rsa(i: Tpm2bPrivateKeyRsa) = 1, Ecc(i: Tpm2bEccParameter) = 0x23, Bits(i: Tpm2bSensitiveData) = 8,
    Sym(i: Tpm2bSymKey) = 0x25, Any(i: Tpm2bPrivateVendorSpecific) = 0x10 } }
variants! { TpmsCapabilityData: u32 { Algorithms(i: TpmlAlgProperty) = 0, Handles(i: TpmlHandle) = 1, Command(i: TpmlCca) = 2, PpCommands(i: TpmlCc) = 3,
    AuditCommands(i: TpmlCc) = 4, AssignedPcr(i: TpmlPcrSelection) = 5, TpmProperties(i: TpmlTaggedTpmProperty) = 6, PcrProperties(i: TpmlTaggedPcrProperty) = 7,
    EccCurves(i: TpmlEccCurve) = 8, AuthPolicies(i: TpmlTaggedPolicy) = 9 } }

// structures whose union selector lies apart from the union
macro_rules! split { ($t:ident { $($pre:ident: $pt:ty),*; $u:ident: $ut:ty; $($f:ident: $ft:ty),* }) => {
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) {
            $( <$pt>::generate(o); )*
            let s = pick(<$ut>::SELS);
            put(o, s, 2);
            $( <$ft>::generate(o); )*
            <$ut>::gen_v(s, o);
        }
        fn parse(b: &[u8], pos: &mut usize) -> bool {
            $( if !<$pt as Wire>::parse(b, pos) { return false; } )*
            let Some(s) = take(b, pos, 2) else { return false };
            $( <$ft as Wire>::parse(b, pos) && )* <$ut>::parse_v(be(s), b, pos)
        }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
            $( self.$pre.check(b, pos).map_err(|e| format!("{}.{}: {e}", stringify!($t), stringify!($pre)))?; )*
            let s = be(take(b, pos, 2).ok_or("short")?);
            $( self.$f.check(b, pos).map_err(|e| format!("{}.{}: {e}", stringify!($t), stringify!($f)))?; )*
            self.$u.check_v(s, b, pos)
        }
    }
} }
split! { TpmsAttest { magic: TpmGenerated; attested: TpmuAttest; qualified_signer: Tpm2bName, extra_data: Tpm2bData, clock_info: TpmsClockInfo, firmware_version: u64 } }
split! { TpmtPublic { ; parms_and_id: PublicParmsAndId; name_alg: TpmiAlgHash, object_attributes: TpmaObject, auth_policy: Tpm2bDigest } }
split! { TpmtSensitive { ; sensitive: TpmuSensitiveComposite; auth_value: Tpm2bAuth, seed_value: Tpm2bDigest } }

// user-defined structures that use the derive macros, as vendors do
mod vendor {
    use safe_discriminant::Discriminant;
    use tpm2_rs_marshalable::{Marshalable, MarshalableVariant};
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    pub struct VTuple(pub u8, pub u32, pub [u8; 3], pub i16);
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    pub struct VArr {
        pub a: u16,
        pub w: [u16; 4],
        pub d: [VTuple3; 2],
        pub z: u8,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Marshalable)]
    pub struct VTuple3(pub u8, pub u64);
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    pub struct VLens {
        pub n8: u8,
        pub n16: u16,
        #[marshalable(length=n8)]
        pub a: [u32; 5],
        pub mid: u8,
        #[marshalable(length=n16)]
        pub b: [VTuple3; 300],
    }
    #[repr(C, u8)]
    #[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
    pub enum VEnum8 {
        A(u8) = 0,
        B(u16, u32) = 7,
        C(VTuple) = 0xff,
    }
    #[repr(C, u32)]
    #[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
    pub enum VEnum32 {
        A(VEnum8) = 1,
        B(u64) = 0x8000_0000,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    pub struct VUnit;
}
use vendor::*;
impl Wire for VArr {
    fn generate(o: &mut Vec<u8>) {
        (0..5).for_each(|_| u16::generate(o));
        (0..2).for_each(|_| VTuple3::generate(o));
        u8::generate(o);
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        (0..5).all(|_| u16::parse(b, pos)) && (0..2).all(|_| VTuple3::parse(b, pos)) && u8::parse(b, pos)
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        self.a.check(b, pos)?;
        self.w.iter().try_for_each(|x| x.check(b, pos))?;
        self.d.iter().try_for_each(|x| x.check(b, pos))?;
        self.z.check(b, pos)
    }
}
macro_rules! tuples { ($($t:ident($($i:tt: $ft:ty),*))*) => { $(
    impl Wire for $t {
        fn generate(o: &mut Vec<u8>) { let _ = &o; $( <$ft as Wire>::generate(o); )* }
        fn parse(b: &[u8], pos: &mut usize) -> bool { let _ = (b, &pos); $( <$ft as Wire>::parse(b, pos) && )* true }
        fn check(&self, b: &[u8], pos: &mut usize) -> Chk { let _ = (b, &pos);
            $( self.$i.check(b, pos).map_err(|e| format!("{}.{}: {e}", stringify!($t), stringify!($i)))?; )* Ok(()) }
    } )* } }
tuples! { VTuple(0: u8, 1: u32, 2: [u8; 3], 3: i16) VTuple3(0: u8, 1: u64) VUnit() }
impl Wire for VLens {
    fn generate(o: &mut Vec<u8>) {
        let (a, b) = (draw(6), list_len(300) as u64);
        put(o, a, 1);
        put(o, b, 2);
        (0..a).for_each(|_| u32::generate(o));
        u8::generate(o);
        (0..b).for_each(|_| VTuple3::generate(o));
    }
    fn parse(b: &[u8], pos: &mut usize) -> bool {
        let Some(x) = take(b, pos, 3) else { return false };
        let (n, m) = (x[0] as usize, be(&x[1..]) as usize);
        n <= 5 && m <= 300 && (0..n).all(|_| u32::parse(b, pos)) && u8::parse(b, pos) && (0..m).all(|_| VTuple3::parse(b, pos))
    }
    fn check(&self, b: &[u8], pos: &mut usize) -> Chk {
        self.n8.check(b, pos)?;
        self.n16.check(b, pos)?;
        for x in self.a.iter().take(self.n8 as usize) {
            x.check(b, pos)?;
        }
        self.mid.check(b, pos)?;
        for x in self.b.iter().take(self.n16 as usize) {
            x.check(b, pos)?;
        }
        Ok(())
    }
}
variants! { VEnum8: u8 { A(x: u8) = 0, B(x: u16, y: u32) = 7, C(x: VTuple) = 0xff } }
variants! { VEnum32: u32 { A(x: VEnum8) = 1, B(x: u64) = 0x8000_0000 } }


// ---------------------------------------------------------------------------------------------

/// What the link does to an encoding.
fn damage(w: &mut Vec<u8>) {
    match weighted(&[6, 4, 4, 3, 1]) {
        0 => {}
        1 => {
            if !w.is_empty() {
                fault("wire_truncated");
                let k = if chance(1, 2) { w.len() - 1 - draw((w.len() as u64).min(4)) as usize } else { draw(w.len() as u64) as usize };
                w.truncate(k);
            }
        }
        2 => {
            if !w.is_empty() {
                for _ in 0..range(1, 3) {
                    let n = w.len() as u64;
                    let at = if chance(1, 2) { draw(n.min(12)) } else { draw(n) } as usize;
                    let old = w[at];
                    w[at] = match draw(3) {
                        0 => old ^ (1 << draw(8)),
                        1 => old.wrapping_add(1),
                        _ => draw(256) as u8,
                    };
                }
                fault("wire_corrupted");
            }
        }
        3 => {
            // a 16 or 32 bit field overwritten with a boundary value
            let n = pick(&[2usize, 4]);
            if w.len() >= n {
                let lim = (w.len() - n) as u64;
                let at = (if chance(2, 3) { draw(lim.min(8) + 1) } else { draw(lim + 1) }) as usize;
                let v = pick(&[0u64, 1, 4, 5, 8, 9, 14, 15, 16, 17, 64, 65, 127, 128, 254, 255, 508, 509, 512, 513, 0x7fff, 0xffff, 0x10000, 0x7fff_ffff, 0xffff_ffff]);
                w[at..at + n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
                fault("wire_length_overwritten");
            }
        }
        _ => {
            let n = small(80);
            *w = bytes(n);
            fault("wire_garbage");
        }
    }
    if chance(1, 2) {
        let n = small(40);
        w.extend(bytes(n));
        probe("bytes_follow");
    }
}
fn small(max: u64) -> usize {
    draw(max + 1) as usize
}

fn judge<T: Wire + PartialEq + Debug>(name: &str, w: &[u8], got: Result<(T, usize), String>) -> Option<(T, usize)> {
    let mut end = 0;
    let good = T::parse(w, &mut end);
    match got {
        Ok((v, used)) => {
            if !good {
                fail("accepted-malformed", format!("{name}: decoded {} although it is not a well-formed encoding", hex(w)));
                return None;
            }
            ensure!(used == end, "wrong-length", "{name}: decoding {} consumed {used} bytes instead of {end}", hex(w));
            let mut pos = 0;
            match sut("accessors", || v.check(w, &mut pos)) {
                Some(Ok(())) => {}
                Some(Err(e)) => fail("wrong-value", format!("{name} sent as {}: {e}", hex(&w[..end]))),
                None => return None,
            }
            Some((v, end))
        }
        Err(e) => {
            ensure!(!good, "refused-wellformed", "{name}: refused well-formed {} ({e})", hex(&w[..end.min(w.len())]));
            None
        }
    }
}

pub fn decode<T: Wire>(w: &[u8]) -> Option<Result<(T, usize), String>> {
    sut("try_unmarshal", || {
        let mut b = UnmarshalBuf::new(w);
        T::try_unmarshal(&mut b).map(|v| (v, w.len() - b.len())).map_err(|e| format!("{e:?}"))
    })
}

fn exercise<T: Wire + PartialEq + Debug>(name: &'static str) {
    let mut w = Vec::new();
    T::generate(&mut w);
    damage(&mut w);
    note(name.as_bytes());
    note(&w);
    nontrivial();
    op_done();
    tr!("{name}: the peer's encoding arrives as {}", hex(&w));
    let Some(got) = decode::<T>(&w) else { return };
    tr!("  decoded: {}", match &got { Ok((_, n)) => format!("ok, {n} bytes"), Err(e) => e.clone() });
    if let Some((v, n)) = judge(name, &w, got) {
        encode_back(name, &v, &w[..n]);
    }
}

/// Re-encodes into output buffers of all interesting sizes.
fn encode_back<T: Wire + PartialEq + Debug>(name: &str, v: &T, want: &[u8]) {
    let n = want.len();
    for _ in 0..3 {
        if failed() {
            return;
        }
        let room = match draw(5) {
            0 => n,
            1 => n + 1 + small(64),
            2 if n > 0 => n - 1,
            3 if n > 0 => draw(n as u64) as usize,
            _ => n,
        };
        op_done();
        let mut out = vec![0xC3u8; room];
        let Some(r) = sut("try_marshal", || v.try_marshal(&mut out)) else { return };
        if room < n {
            fault("output_buffer_too_small");
            ensure!(r.is_err(), "short-output", "{name}: encoding into {room} bytes gave {r:?} although {n} are needed");
        } else {
            match r {
                Ok(k) => {
                    ensure!(k == n && out[..n] == *want, "wrong-encoding", "{name}: sent as {} but encodes as {} ({k} bytes)", hex(want), hex(&out[..k.min(room)]));
                    ensure!(out[n..].iter().all(|x| *x == 0xC3), "wrong-encoding", "{name}: encoding wrote beyond its {n} bytes");
                }
                Err(e) => fail("refused-encode", format!("{name}: encoding into {room} bytes failed with {e:?} although {n} suffice")),
            }
        }
    }
    if let Some(Ok((again, _))) = decode::<T>(want) {
        ensure!(again == *v, "wrong-value", "{name}: two decodings of {} differ", hex(want));
    }
}

fn buffer<T: Buf>(name: &'static str) {
    let max = T::MAX_BUFFER_SIZE;
    ensure!(max >= T::MIN, "capacity", "{name}: capacity is {max}, too small for its {} bytes", T::MIN);
    ensure!(T::default().get_size() == 0 && T::default().get_buffer().is_empty(), "wrong-value", "{name}: default is not empty");
    let n = if chance(1, 3) { max + 1 + draw(70_000) as usize } else { size(max + 2) };
    let data = bytes(n);
    note(name.as_bytes());
    op_done();
    nontrivial();
    let Some(r) = sut("from_bytes", || T::from_bytes(&data)) else { return };
    tr!("{name}: from_bytes of {n} bytes, capacity {max}: {}", r.is_ok());
    match r {
        Ok(v) => {
            if n > max || n > 0xffff {
                fault("input_too_long");
                fail("accepted-malformed", format!("{name}: took {n} bytes, capacity is {max}"));
                return;
            }
            ensure!(v.get_buffer() == &data[..] && v.as_ref() == &data[..] && v.get_size() as usize == n, "wrong-value", "{name}: does not hold the {n} bytes it was made from");
            let mut w = (n as u16).to_be_bytes().to_vec();
            w.extend(&data);
            encode_back(name, &v, &w);
        }
        Err(e) => {
            fault("input_too_long");
            ensure!(n > max || n > 0xffff, "refused-wellformed", "{name}: refused {n} bytes ({e:?}), capacity is {max}");
        }
    }
}

fn list<T: List>(name: &'static str) {
    let n = if chance(1, 4) { T::CAP + small(3) } else { list_len(T::CAP) };
    let mut w = Vec::new();
    let mut es = Vec::new();
    for _ in 0..n {
        let from = w.len();
        T::E::generate(&mut w);
        let Some(Ok((e, _))) = decode::<T::E>(&w[from..]) else { return };
        es.push(e);
    }
    note(name.as_bytes());
    op_done();
    nontrivial();
    let by_new = chance(1, 2);
    tr!("{name}: {n} elements by {}", if by_new { "new" } else { "add" });
    let made = sut("list", || {
        if by_new {
            T::build(&es)
        } else {
            let mut l = T::default();
            for (i, e) in es.iter().enumerate() {
                if !l.push(e) {
                    ensure!(i >= T::CAP, "refused-wellformed", "{name}: refused element {i}");
                    return None;
                }
            }
            Some(l)
        }
    });
    let Some(made) = made else { return };
    let mut full = (n as u32).to_be_bytes().to_vec();
    full.extend(&w);
    match made {
        Some(l) => {
            if n > T::CAP {
                fault("input_too_long");
                fail("accepted-malformed", format!("{name}: took {n} elements"));
                return;
            }
            let mut pos = 0;
            if let Some(Err(e)) = sut("accessors", || l.check(&full, &mut pos)) {
                fail("wrong-value", format!("{name} built from {n} elements: {e}"));
            }
            encode_back(name, &l, &full);
        }
        None => {
            fault("input_too_long");
            ensure!(n > T::CAP, "refused-wellformed", "{name}: refused {n} elements");
        }
    }
}

fn structured<T: Buf + Tpm2bStruct>(name: &'static str)
where
    T::StructType: Wire + PartialEq + Debug,
{
    let mut w = Vec::new();
    <T::StructType>::generate(&mut w);
    let Some(Ok((v, _))) = decode::<T::StructType>(&w) else { return };
    op_done();
    nontrivial();
    note(name.as_bytes());
    note(&w);
    tr!("{name}: from_struct of {} bytes", w.len());
    let Some(r) = sut("from_struct", || T::from_struct(&v)) else { return };
    match r {
        Ok(b) => {
            ensure!(b.get_buffer() == &w[..], "wrong-encoding", "{name}: holds {} instead of {}", hex(b.get_buffer()), hex(&w));
            if let Some(r) = sut("to_struct", || b.to_struct()) {
                ensure!(r.as_ref().is_ok_and(|x| *x == v), "wrong-value", "{name}: to_struct gave {r:?}");
            }
        }
        Err(e) => ensure!(w.len() > T::MAX_BUFFER_SIZE, "refused-encode", "{name}: from_struct failed with {e:?}"),
    }
    // the contents of a received buffer may be damaged
    damage(&mut w);
    if w.len() <= T::MAX_BUFFER_SIZE {
        if let Some(Ok(b)) = sut("from_bytes", || T::from_bytes(&w)) {
            let mut end = 0;
            let good = <T::StructType>::parse(&w, &mut end);
            if let Some(r) = sut("to_struct", || b.to_struct()) {
                match r {
                    Ok(v) => {
                        ensure!(good, "accepted-malformed", "{name}: to_struct accepted {}", hex(&w));
                        let mut pos = 0;
                        if good {
                            if let Some(Err(e)) = sut("accessors", || v.check(&w, &mut pos)) {
                                fail("wrong-value", format!("{name}: {e}"));
                            }
                        }
                    }
                    Err(e) => ensure!(!good || end < w.len(), "refused-wellformed", "{name}: to_struct refused {} ({e:?})", hex(&w)),
                }
            }
        }
    }
}

/// Values whose count field claims more elements than there are cannot be encoded.
fn overcounted() {
    let extra = pick(&[1u32, 2, 100, 250]);
    let (name, r): (&str, _) = match draw(4) {
        0 => {
            let v = TpmsPcrSelection { hash: TpmiAlgHash(0xb), sizeof_select: (4 + extra).min(255) as u8, pcr_select: [1, 2, 3, 4] };
            ("TpmsPcrSelection", sut("try_marshal", || v.try_marshal(&mut [0u8; 4096])))
        }
        1 => {
            let mut v = TpmlTaggedTpmProperty::default();
            v.count = 127 + extra;
            ("TpmlTaggedTpmProperty", sut("try_marshal", || v.try_marshal(&mut [0u8; 8192])))
        }
        2 => {
            let v = VLens { n8: (5 + extra).min(255) as u8, n16: 1, a: [1; 5], mid: 2, b: [VTuple3(1, 2); 300] };
            ("VLens.n8", sut("try_marshal", || v.try_marshal(&mut [0u8; 8192])))
        }
        _ => {
            let v = VLens { n8: 1, n16: 300 + extra as u16, a: [1; 5], mid: 2, b: [VTuple3(1, 2); 300] };
            ("VLens.n16", sut("try_marshal", || v.try_marshal(&mut [0u8; 8192])))
        }
    };
    fault("count_exceeds_array");
    op_done();
    note(name.as_bytes());
    tr!("{name}: encoding a value with {extra} elements too many: {r:?}");
    if let Some(r) = r {
        ensure!(r.is_err(), "accepted-malformed", "{name}: a count beyond the array was encoded as {r:?}");
    }
}

type Ex = (&'static str, fn(&'static str));
macro_rules! reg { ($f:ident: $($t:ty),* $(,)?) => { &[$( (stringify!($t), $f::<$t> as fn(&'static str)) ),*] } }
const ALL: &[Ex] = reg!(exercise:
    TpmtHa, Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, TpmsClockInfo, TpmsPcrSelection,
    TpmlPcrSelection, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo, TpmsSessionAuditInfo, TpmsTimeInfo,
    TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmuAttest, TpmsAttest, Tpm2bAttest, Tpm2bSymKey, Tpm2bLabel, TpmsDerive, Tpm2bSensitiveData,
    TpmsSensitiveCreate, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter, TpmsEccPoint, Tpm2bEncryptedSecret,
    TpmsSchemeXor, TpmtKeyedHashScheme, TpmsKeyedHashParms, TpmtSymDefObject, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc,
    TpmtSignature, TpmtSigScheme, TpmsSchemeHash, TpmsSchemeEcdaa, TpmtRsaScheme, TpmsRsaParms, TpmtEccScheme, TpmtKdfScheme, TpmsEccParms,
    TpmtAsymScheme, TpmsAsymParms, PublicParmsAndId, TpmtPublic, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, TpmuSensitiveComposite,
    TpmtSensitive, TpmsCapabilityData, TpmlAlgProperty, TpmlHandle, TpmlCca, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve,
    TpmlTaggedPolicy, TpmsAlgProperty, TpmsTaggedProperty, TpmsTaggedPcrSelect, TpmsTaggedPolicy, TpmlDigest, TpmsAuthCommand, TpmsAuthResponse,
    Tpm2bPrivate, TpmsIdObject, Tpm2bIdObject, TpmsNvPublic, Tpm2bContextSensitive, TpmsContextData, Tpm2bContextData, TpmsCreationData,
    Tpm2bCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd, GetRandomResp, StartupCmd, PcrReadCmd, PcrReadResp,
    VTuple, VArr, VLens, VEnum8, VEnum32, VUnit, VTuple3, (), [u8; 5], TpmsEmpty, TpmHc,
    u8, u16, u32, u64, i8, i16, i32, i64,
    TpmaLocality, TpmaNv, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic, TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme,
    TpmiAlgSigScheme, TpmiAlgEccScheme, TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiStCommandTag,
    TpmAlgId, TpmEccCurve, TpmCc, TpmSt, TpmSu, TpmCap, TpmPt, TpmPtPcr, TpmHandle, TpmGenerated, TpmiRhNvIndex, TpmiShAuthSession, TpmiEccCurve,
    TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits, TpmiRsaKeyBits,
);
/// Structures (as opposed to plain words) come first in ALL.
const STRUCTS: u64 = 100;
const BUFS: &[Ex] = reg!(buffer: Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
    Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter, Tpm2bEncryptedSecret, Tpm2bPublic,
    Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject, Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData);
const LISTS: &[Ex] = reg!(list: TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve,
    TpmlTaggedPolicy, TpmlDigest);
const STRUCTURED: &[Ex] = reg!(structured: Tpm2bPublic, Tpm2bSensitiveCreate, Tpm2bCreationData);

fn c14() {
    let n = range(1, 4);
    for _ in 0..n {
        let pool = match weighted(&[12, 2, 2, 1, 1]) {
            0 => {
                let k = if chance(7, 8) { draw(STRUCTS) } else { draw(ALL.len() as u64) };
                ALL[k as usize]
            }
            1 => pick(BUFS),
            2 => pick(LISTS),
            3 => pick(STRUCTURED),
            _ => {
                overcounted();
                continue;
            }
        };
        pool.1(pool.0);
        if failed() {
            return;
        }
    }
}

pub const C14: Prop = Prop {
    id: "C14",
    scenario: c14,
    quick: 6_000_000,
    thorough: 60_000_000,
    rule: "1-4 structures per run, drawn from every marshalable structure of the library and a set of vendor-style derived ones, drawn values with boundary bias, link faults (truncation, corruption, overwritten lengths, garbage, following bytes) and output buffers of every size; non-trivial: every run",
    real: &["tpm2-rs-marshalable, tpm2-rs-marshalable-derive (generated code), tpm2-rs-base structures"],
    stub: &["the sending peer and the link (independent layout tables, drawn damage)"],
    assumptions: &["the layout tables in sim/src/wire.rs state the TPM 2.0 layout; capacities of size_of-based buffers are taken from the library but must reach a stated minimum"],
};
