//! C24's dictionary: what TPM 2.0 Part 2 calls things, as numbers. Literals from the
//! specification (reviewed by hand), paired with the library's name for the same thing.

use tpm2::Alg;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;

/// (name, the library's value, the specification's value)
pub type Name = (&'static str, u32, u32);

macro_rules! names { ($f:ident, $t:ident, $($n:ident = $v:literal),* $(,)?) => {
    pub fn $f() -> Vec<Name> { vec![$((concat!(stringify!($t), "::", stringify!($n)), $t::$n.0 as u32, $v)),*] }
} }

names!(algs, TpmAlgId,
    RSA = 0x1, TDES = 0x3, SHA1 = 0x4, HMAC = 0x5, AES = 0x6, MGF1 = 0x7, KeyedHash = 0x8, XOR = 0xa, SHA256 = 0xb, SHA384 = 0xc, SHA512 = 0xd,
    Null = 0x10, SM3256 = 0x12, SM4 = 0x13, RSASSA = 0x14, RSAES = 0x15, RSAPSS = 0x16, OAEP = 0x17, ECDSA = 0x18, ECDH = 0x19, ECDAA = 0x1a,
    SM2 = 0x1b, ECSchnorr = 0x1c, ECMQV = 0x1d, KDF1SP80056A = 0x20, KDF2 = 0x21, KDF1SP800108 = 0x22, ECC = 0x23, SymCipher = 0x25, Camellia = 0x26,
    SHA3256 = 0x27, SHA3384 = 0x28, SHA3512 = 0x29, CMAC = 0x3f, CTR = 0x40, OFB = 0x41, CBC = 0x42, CFB = 0x43, ECB = 0x44,
);
names!(curves, TpmEccCurve,
    None = 0x0, NistP192 = 0x1, NistP224 = 0x2, NistP256 = 0x3, NistP384 = 0x4, NistP521 = 0x5, BNP256 = 0x10, BNP638 = 0x11, SM2P256 = 0x20,
);
names!(commands, TpmCc,
    NVUndefineSpaceSpecial = 0x11f, EvictControl = 0x120, HierarchyControl = 0x121, NVUndefineSpace = 0x122, ChangeEPS = 0x124, ChangePPS = 0x125,
    Clear = 0x126, ClearControl = 0x127, ClockSet = 0x128, HierarchyChanegAuth = 0x129, NVDefineSpace = 0x12a, PCRAllocate = 0x12b,
    PCRSetAuthPolicy = 0x12c, PPCommands = 0x12d, SetPrimaryPolicy = 0x12e, FieldUpgradeStart = 0x12f, ClockRateAdjust = 0x130, CreatePrimary = 0x131,
    NVGlobalWriteLock = 0x132, GetCommandAuditDigest = 0x133, NVIncrement = 0x134, NVSetBits = 0x135, NVExtend = 0x136, NVWrite = 0x137,
    NVWriteLock = 0x138, DictionaryAttackLockReset = 0x139, DictionaryAttackParameters = 0x13a, NVChangeAuth = 0x13b, PCREvent = 0x13c,
    PCRReset = 0x13d, SequenceComplete = 0x13e, SetAlgorithmSet = 0x13f, SetCommandCodeAuditStatus = 0x140, FieldUpgradeData = 0x141,
    IncrementalSelfTest = 0x142, SelfTest = 0x143, Startup = 0x144, Shutdown = 0x145, StirRandom = 0x146, ActivateCredential = 0x147, Certify = 0x148,
    PolicyNV = 0x149, CertifyCreation = 0x14a, Duplicate = 0x14b, GetTime = 0x14c, GetSessionAuditDigest = 0x14d, NVRead = 0x14e, NVReadLock = 0x14f,
    ObjectChangeAuth = 0x150, PolicySecret = 0x151, Rewrap = 0x152, Create = 0x153, ECDHZGen = 0x154, MAC = 0x155, Import = 0x156, Load = 0x157,
    Quote = 0x158, RSADecrypt = 0x159, MACStart = 0x15b, SequenceUpdate = 0x15c, Sign = 0x15d, Unseal = 0x15e, PolicySigned = 0x160,
    ContextLoad = 0x161, ContextSave = 0x162, ECDHKeyGen = 0x163, EncryptDecrypt = 0x164, FlushContext = 0x165, LoadExternal = 0x167,
    MakeCredential = 0x168, NVReadPublic = 0x169, PolicyAuthorize = 0x16a, PolicyAuthValue = 0x16b, PolicyCommandCode = 0x16c,
    PolicyCounterTimer = 0x16d, PolicyCpHash = 0x16e, PolicyLocality = 0x16f, PolicyNameHash = 0x170, PolicyOR = 0x171, PolicyTicket = 0x172,
    ReadPublic = 0x173, RSAEncrypt = 0x174, StartAuthSession = 0x176, VerifySignature = 0x177, ECCParameters = 0x178, FirmwareRead = 0x179,
    GetCapability = 0x17a, GetRandom = 0x17b, GetTestResult = 0x17c, Hash = 0x17d, PCRRead = 0x17e, PolicyPCR = 0x17f, PolicyRestart = 0x180,
    ReadClock = 0x181, PCRExtend = 0x182, PCRSetAuthValue = 0x183, NVCertify = 0x184, EventSequenceComplete = 0x185, HashSequenceStart = 0x186,
    PolicyPhysicalPresence = 0x187, PolicyDuplicationSelect = 0x188, PolicyGetDigest = 0x189, TestParams = 0x18a, Commit = 0x18b,
    PolicyPassword = 0x18c, ZGen2Phase = 0x18d, ECEphemeral = 0x18e, PolicyNvWritten = 0x18f, PolicyTemplate = 0x190, CreateLoaded = 0x191,
    PolicyAuthorizeNV = 0x192, EncryptDecrypt2 = 0x193, ACGetCapability = 0x194, ACSend = 0x195, PolicyACSendSelect = 0x196, CertifyX509 = 0x197,
    ACTSetTimeout = 0x198,
);
names!(codes, TpmRc,
    Success = 0x0, Initialize = 0x100, Failure = 0x101, Sequence = 0x103, Private = 0x10b, Hmac = 0x119, Disabled = 0x120, Exclusive = 0x121,
    AuthType = 0x124, AuthMissing = 0x125, Policy = 0x126, Pcr = 0x127, PCRChanged = 0x128, Upgrade = 0x12d, TooManyContexts = 0x12e,
    AuthUnavailable = 0x12f, Reboot = 0x130, Unbalanced = 0x131, CommandSize = 0x142, CommandCode = 0x143, AuthSize = 0x144, AuthContext = 0x145,
    NVRange = 0x146, NVSize = 0x147, NVLocked = 0x148, NVAuthorization = 0x149, NVUninitialized = 0x14a, NVSpace = 0x14b, NVDefined = 0x14c,
    BadContext = 0x150, CPHash = 0x151, Parent = 0x152, NeedsTest = 0x153, NoResult = 0x154, Sensitive = 0x155, CAsymmetric = 0x81, Attributes = 0x82,
    Hash = 0x83, Value = 0x84, Hierarchy = 0x85, KeySize = 0x87, Mgf = 0x88, Mode = 0x89, Type = 0x8a, Handle = 0x8b, Kdf = 0x8c, Range = 0x8d,
    AuthFail = 0x8e, Nonce = 0x8f, PP = 0x90, Scheme = 0x92, Size = 0x95, Symmetric = 0x96, Tag = 0x97, Selector = 0x98, Insufficient = 0x9a,
    Signature = 0x9b, Key = 0x9c, PolicyFail = 0x9d, Integrity = 0x9f, Ticket = 0xa0, ReservedBits = 0xa1, BadAuth = 0xa2, Expired = 0xa3,
    PolicyCC = 0xa4, Binding = 0xa5, Curve = 0xa6, ECCPoint = 0xa7, ContextGap = 0x901, ObjectMemory = 0x902, SessionMemory = 0x903, Memory = 0x904,
    SessionHandles = 0x905, ObjectHandles = 0x906, Locality = 0x907, Yielded = 0x908, Canceled = 0x909, Testing = 0x90a, ReferenceH0 = 0x910,
    ReferenceH1 = 0x911, ReferenceH2 = 0x912, ReferenceH3 = 0x913, ReferenceH4 = 0x914, ReferenceH5 = 0x915, ReferenceH6 = 0x916, ReferenceS0 = 0x918,
    ReferenceS1 = 0x919, ReferenceS2 = 0x91a, ReferenceS3 = 0x91b, ReferenceS4 = 0x91c, ReferenceS5 = 0x91d, ReferenceS6 = 0x91e, NVRate = 0x920,
    Lockout = 0x921, Retry = 0x922, NVUnavailable = 0x923,
);
names!(comparisons, TpmEo,
    Eq = 0x0, Neq = 0x1, SignedGT = 0x2, UnsignedGT = 0x3, SignedLT = 0x4, UnsignedLT = 0x5, SignedGE = 0x6, UnsignedGE = 0x7, SignedLE = 0x8,
    UnsignedLE = 0x9, BitSet = 0xa, BitClear = 0xb,
);
names!(tags, TpmSt,
    RspCommand = 0xc4, Null = 0x8000, NoSessions = 0x8001, Sessions = 0x8002, AttestNV = 0x8014, AttestCommandAudit = 0x8015,
    AttestSessionAudit = 0x8016, AttestCertify = 0x8017, AttestQuote = 0x8018, AttestTime = 0x8019, AttestCreation = 0x801a, AttestNVDigest = 0x801c,
    Creation = 0x8021, Verified = 0x8022, AuthSecret = 0x8023, HashCheck = 0x8024, AuthSigned = 0x8025, FuManifest = 0x8029,
);
names!(startups, TpmSu,
    Clear = 0x0, State = 0x1,
);
names!(session_types, TpmSe,
    HMAC = 0x0, Policy = 0x1, Trial = 0x3,
);
names!(capabilities, TpmCap,
    Algs = 0x0, Handles = 0x1, Commands = 0x2, PPCommands = 0x3, AuditCommands = 0x4, PCRs = 0x5, TPMProperties = 0x6, PCRProperties = 0x7,
    ECCCurves = 0x8, AuthPolicies = 0x9, ACT = 0xa,
);
names!(properties, TpmPt,
    FamilyIndicator = 0x100, Level = 0x101, Revision = 0x102, DayofYear = 0x103, Year = 0x104, Manufacturer = 0x105, VendorString1 = 0x106,
    VendorString2 = 0x107, VendorString3 = 0x108, VendorString4 = 0x109, VendorTPMType = 0x10a, FirmwareVersion1 = 0x10b, FirmwareVersion2 = 0x10c,
    InputBuffer = 0x10d, HRTransientMin = 0x10e, HRPersistentMin = 0x10f, HRLoadedMin = 0x110, ActiveSessionsMax = 0x111, PCRCount = 0x112,
    PCRSelectMin = 0x113, ContextGapMax = 0x114, NVCountersMax = 0x116, NVIndexMax = 0x117, Memory = 0x118, ClockUpdate = 0x119, ContextHash = 0x11a,
    ContextSym = 0x11b, ContextSymSize = 0x11c, OrderlyCount = 0x11d, MaxCommandSize = 0x11e, MaxResponseSize = 0x11f, MaxDigest = 0x120,
    MaxObjectContext = 0x121, MaxSessionContext = 0x122, PSFamilyIndicator = 0x123, PSLevel = 0x124, PSRevision = 0x125, PSDayOfYear = 0x126,
    PSYear = 0x127, SplitMax = 0x128, TotalCommands = 0x129, LibraryCommands = 0x12a, VendorCommands = 0x12b, NVBufferMax = 0x12c, Modes = 0x12d,
    MaxCapBuffer = 0x12e, Permanent = 0x200, StartupClear = 0x201, HRNVIndex = 0x202, HRLoaded = 0x203, HRLoadedAvail = 0x204, HRActive = 0x205,
    HRActiveAvail = 0x206, HRTransientAvail = 0x207, HRPersistent = 0x208, HRPersistentAvail = 0x209, NVCounters = 0x20a, NVCountersAvail = 0x20b,
    AlgorithmSet = 0x20c, LoadedCurves = 0x20d, LockoutCounter = 0x20e, MaxAuthFail = 0x20f, LockoutInterval = 0x210, LockoutRecovery = 0x211,
    NVWriteRecovery = 0x212, AuditCounter0 = 0x213, AuditCounter1 = 0x214,
);
names!(pcr_properties, TpmPtPcr,
    Save = 0x0, ExtendL0 = 0x1, ResetL0 = 0x2, ExtendL1 = 0x3, ResetL1 = 0x4, ExtendL2 = 0x5, ResetL2 = 0x6, ExtendL3 = 0x7, ResetL3 = 0x8,
    ExtendL4 = 0x9, ResetL4 = 0xa, NoIncrement = 0x11, DRTMRest = 0x12, Policy = 0x13, Auth = 0x14,
);
names!(handle_types, TpmHt,
    PCR = 0x0, NVIndex = 0x1, HMACSession = 0x2, PolicySession = 0x3, Permanent = 0x40, Transient = 0x80, Persistent = 0x81, AC = 0x90,
);
names!(handles, TpmHandle,
    RHOwner = 0x40000001, RHNull = 0x40000007, RSPW = 0x40000009, RHLockout = 0x4000000a, RHEndorsement = 0x4000000b, RHPlatform = 0x4000000c,
    RHPlatformNV = 0x4000000d,
);
names!(index_types, TpmNt,
    Ordinary = 0x0, Counter = 0x1, Bits = 0x2, Extend = 0x4, PinFail = 0x8, PinPass = 0x9,
);
names!(generated, TpmGenerated,
    VALUE = 0xff544347,
);
names!(borrowed_algs, Alg,
    Rsa = 0x1, Tdes = 0x3, Sha1 = 0x4, Hmac = 0x5, Aes = 0x6, Mgf1 = 0x7, KeyedHash = 0x8, Null = 0x10, Xor = 0xa, Sha256 = 0xb, Sha384 = 0xc,
    Sha512 = 0xd, Sm3_256 = 0x12, Sm4 = 0x13, RsaSsa = 0x14, RsaEs = 0x15, RsaPss = 0x16, Oaep = 0x17, Ecdsa = 0x18, Ecdh = 0x19, Ecdaa = 0x1a,
    Sm2 = 0x1b, EcSchnorr = 0x1c, Ecmqv = 0x1d, Kdf1Sp800_56A = 0x20, Kdf2 = 0x21, Kdf1Sp800_108 = 0x22, Ecc = 0x23, SymCipher = 0x25,
    Camellia = 0x26, Sha3_256 = 0x27, Sha3_384 = 0x28, Sha3_512 = 0x29, Ctr = 0x40, Ofb = 0x41, Cbc = 0x42, Cfb = 0x43, Ecb = 0x44,
);
names!(i_tpmialghash, TpmiAlgHash,
    SHA1 = 0x4, SHA256 = 0xb, SHA384 = 0xc, SHA512 = 0xd, SM3256 = 0x12, SHA3256 = 0x27, SHA3384 = 0x28, SHA3512 = 0x29,
);
names!(i_tpmialgkdf, TpmiAlgKdf,
    MGF1 = 0x7, KDF1SP80056A = 0x20, KDF2 = 0x21, KDF1SP800108 = 0x22,
);
names!(i_tpmialgpublic, TpmiAlgPublic,
    RSA = 0x1, KeyedHash = 0x8, ECC = 0x23, SymCipher = 0x25,
);
names!(i_tpmialgsymmode, TpmiAlgSymMode,
    CMAC = 0x3f, CTR = 0x40, OFB = 0x41, CBC = 0x42, CFB = 0x43, ECB = 0x44,
);
names!(i_tpmialgsymobject, TpmiAlgSymObject,
    TDES = 0x3, AES = 0x6, SM4 = 0x13, Camellia = 0x26,
);
names!(i_tpmialgkeyedhashscheme, TpmiAlgKeyedhashScheme,
    HMAC = 0x5, XOR = 0xa,
);
names!(i_tpmialgrsascheme, TpmiAlgRsaScheme,
    RSAPSS = 0x16, RSASSA = 0x14, ECDSA = 0x18, ECDAA = 0x1a, SM2 = 0x1b, ECSchnorr = 0x1c, RSAES = 0x15, OAEP = 0x17,
);
names!(i_tpmialgsigscheme, TpmiAlgSigScheme,
    RSAPSS = 0x16, RSASSA = 0x14, ECDSA = 0x18, ECDAA = 0x1a, SM2 = 0x1b, ECSchnorr = 0x1c, HMAC = 0x5,
);
names!(i_tpmialgeccscheme, TpmiAlgEccScheme,
    RSAPSS = 0x16, RSASSA = 0x14, ECDSA = 0x18, ECDAA = 0x1a, SM2 = 0x1b, ECSchnorr = 0x1c, ECDH = 0x19, ECMQV = 0x1d,
);
names!(i_tpmialgasymscheme, TpmiAlgAsymScheme,
    SM2 = 0x1b, ECDH = 0x19, ECMQV = 0x1d, RSAPSS = 0x16, RSASSA = 0x14, ECDSA = 0x18, ECDAA = 0x1a, ECSchnorr = 0x1c, RSAES = 0x15, OAEP = 0x17,
);
names!(i_tpmiyesno, TpmiYesNo,
    NO = 0x0, YES = 0x1,
);
names!(i_tpmistattest, TpmiStAttest,
    AttestCertify = 0x8017, AttestQuote = 0x8018, AttestSessionAudit = 0x8016, AttestCommandAudit = 0x8015, AttestTime = 0x8019,
    AttestCreation = 0x801a, AttestNV = 0x8014, AttestNVDigest = 0x801c,
);
names!(i_tpmistcommandtag, TpmiStCommandTag,
    NoSessions = 0x8001, Sessions = 0x8002,
);
pub fn interfaces() -> Vec<Name> {
    [i_tpmialghash(), i_tpmialgkdf(), i_tpmialgpublic(), i_tpmialgsymmode(), i_tpmialgsymobject(), i_tpmialgkeyedhashscheme(), i_tpmialgrsascheme(), i_tpmialgsigscheme(), i_tpmialgeccscheme(), i_tpmialgasymscheme(), i_tpmiyesno(), i_tpmistattest(), i_tpmistcommandtag()].concat()
}

/// One attribute word: its flags by name, and its flags' bits in the specification.
macro_rules! flags { ($f:ident, $t:ident, $($n:ident = $b:literal),* $(,)?) => {
    pub fn $f() -> Vec<(&'static str, $t, u32)> { vec![$((concat!(stringify!($t), "::", stringify!($n)), $t::$n, 1u32 << $b)),*] }
} }
flags!(f_locality, TpmaLocality, LOC_ZERO = 0, LOC_ONE = 1, LOC_TWO = 2, LOC_THREE = 3, LOC_FOUR = 4);
flags!(f_nv, TpmaNv, PPWRITE = 0, OWNERWRITE = 1, AUTHWRITE = 2, POLICYWRITE = 3, POLICY_DELETE = 10, WRITELOCKED = 11, WRITEALL = 12, WRITEDEFINE = 13, WRITE_STCLEAR = 14, GLOBALLOCK = 15, PPREAD = 16, OWNERREAD = 17, AUTHREAD = 18, POLICYREAD = 19, NO_DA = 25, ORDERLY = 26, CLEAR_STCLEAR = 27, READLOCKED = 28, WRITTEN = 29, PLATFORMCREATE = 30, READ_STCLEAR = 31);
flags!(f_object, TpmaObject, FIXED_TPM = 1, ST_CLEAR = 2, FIXED_PARENT = 4, SENSITIVE_DATA_ORIGIN = 5, USER_WITH_AUTH = 6, ADMIN_WITH_POLICY = 7, NO_DA = 10, ENCRYPTED_DUPLICATION = 11, RESTRICTED = 16, DECRYPT = 17, SIGN_ENCRYPT = 18, X509_SIGN = 19);
flags!(f_algorithm, TpmaAlgorithm, ASYMMETRIC = 0, SYMMETRIC = 1, HASH = 2, OBJECT = 3, SIGNING = 8, ENCRYPTING = 9, METHOD = 10);
flags!(f_session, TpmaSession, CONTINUE_SESSION = 0, AUDIT_EXCLUSIVE = 1, AUDIT_RESET = 2, DECRYPT = 5, ENCRYPT = 6, AUDIT = 7);
flags!(f_cc, TpmaCc, NV = 22, EXTENSIVE = 23, FLUSHED = 24, R_HANDLE = 28, V = 29);
