//! Reference model of the wire formats: independent encoders, decoders and JSON
//! shapes for every public type, plus generators that enumerate their values.
use crate::engine::Ctx;
use base64::Engine as _;
use num_bigint::BigUint;
use serde_json::{json, Map, Value};
use sia::consensus::*;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::v1::{self, CoveredFields, TransactionSignature, UnlockConditions, UnlockKey};
use sia::types::v2::{self, SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use time::{Duration, OffsetDateTime};

pub fn blake(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = blake2b_simd::Params::new().hash_length(32).to_state();
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().try_into().unwrap()
}

// ------------------------------------------------------------------ generators

pub trait G: Sized {
    fn g(c: &mut Ctx) -> Self;
}

// kinds of variable-length parts
pub const L_LIST: u8 = 0;
pub const L_BYTES: u8 = 1;
pub const L_POLICIES: u8 = 2;

/// Which variable-length part gets which length, for every part of a dense value, as long as the value
/// stays below `cap` bytes.
pub fn long_cases<T>(gen: fn(&mut Ctx) -> T, size: impl Fn(&T) -> usize, cap: usize) -> Vec<(usize, usize)> {
    long_cases_of(gen, size, cap, cap)
}
/// ... below `bytes_cap` if the part is a byte string.
pub fn long_cases_of<T>(gen: fn(&mut Ctx) -> T, size: impl Fn(&T) -> usize, cap: usize, bytes_cap: usize) -> Vec<(usize, usize)> {
    const LENS: [usize; 26] = [
        16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 65535, 65536, 65537,
    ];
    const BYTES: [usize; 10] = [16383, 16384, 16385, 32768, 100_000, 131_071, 131_072, 131_073, 1 << 20, (1 << 20) + 1];
    let with = |f: Option<(usize, usize)>| {
        let mut c = Ctx::new(&[], false);
        let v = long_value(&mut c, gen, f);
        (size(&v), c.lists)
    };
    let (_, kinds) = with(None);
    let mut v = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let (a, _) = with(Some((i, 4)));
        let (b, _) = with(Some((i, 24)));
        let per = ((b - a) as f64 / 20.0).max(1.0);
        let mut lens = LENS.to_vec();
        if *k == L_BYTES {
            lens.extend(BYTES);
        }
        for n in lens {
            if per * n as f64 <= if *k == L_BYTES { bytes_cap } else { cap } as f64 && (*k != L_POLICIES || n < 256) {
                v.push((i, n));
            }
        }
    }
    v
}
/// The dense value in which one variable-length part has the given length.
pub fn long_value<T>(c: &mut Ctx, gen: fn(&mut Ctx) -> T, force: Option<(usize, usize)>) -> T {
    let q = c.quiet;
    c.quiet = true;
    c.mode = 1;
    c.force = force;
    let v = gen(c);
    c.quiet = q;
    v
}
/// One of the cases, chosen freely.
pub fn long_choice<T>(c: &mut Ctx, gen: fn(&mut Ctx) -> T, cases: &[(usize, usize)]) -> T {
    let k = c.free(cases.len());
    long_value(c, gen, Some(cases[k]))
}

pub const U64S: [u64; 20] = [
    0,
    1,
    2,
    127,
    128,
    255,
    256,
    65535,
    65536,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    1 << 53,
    (1 << 53) + 1,
    (1 << 56) + 3,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];
pub const U64S_SMALL: [u64; 4] = [0, 1, 256, u64::MAX];

/// A counter-based value that differs for every field of a dense base.
pub fn distinct(c: &mut Ctx) -> u64 {
    let k = c.next_ctr();
    0x0101_0101_0000_0000u64
        .wrapping_mul(k % 120 + 1)
        .wrapping_add(k.wrapping_mul(0x0001_0203) + 0x11)
        & 0x7fff_ffff_ffff_ffff
}
pub fn gen_u64(c: &mut Ctx) -> u64 {
    let d = if c.mode == 0 { 0 } else { distinct(c) };
    if c.rich && c.depth == 0 {
        let k = c.choose(U64S.len() + 1);
        if k == 0 {
            d
        } else {
            U64S[k - 1]
        }
    } else {
        let k = c.choose(U64S_SMALL.len() + 1);
        if k == 0 {
            d
        } else {
            U64S_SMALL[k - 1]
        }
    }
}
pub fn gen_bytes<const N: usize>(c: &mut Ctx) -> [u8; N] {
    let mut b = [0u8; N];
    if c.mode != 0 {
        let k = c.next_ctr();
        for (i, x) in b.iter_mut().enumerate() {
            *x = (k as u8)
                .wrapping_mul(37)
                .wrapping_add((i as u8).wrapping_mul(3))
                .wrapping_add(1);
        }
        // beyond 256 values
        for (i, x) in (k >> 8).to_le_bytes().iter().enumerate() {
            if i < N {
                b[(N - 1 + i) % N] ^= x;
            }
        }
    }
    let n = if c.rich && c.depth == 0 { 7 } else { 4 };
    match c.choose(n) {
        0 => {}
        1 => {
            b = [0u8; N];
        }
        2 => {
            b = [0xff; N];
        }
        3 => {
            for (i, x) in b.iter_mut().enumerate() {
                *x = 0xa0u8.wrapping_add(i as u8);
            }
        }
        4 => {
            b = [0u8; N];
            if N > 0 {
                b[0] = 1;
            }
        }
        5 => {
            b = [0u8; N];
            if N > 0 {
                b[N - 1] = 0x80;
            }
        }
        _ => {
            if N > 0 {
                b[N / 2] ^= 0x55;
            }
        }
    }
    b
}
/// List lengths: the base length, then the others, then lengths around format limits.
pub fn gen_len(c: &mut Ctx) -> usize {
    if let Some(n) = c.forced_len(L_LIST) {
        return n;
    }
    let d = c.mode;
    let alts: &[usize] = if c.rich && c.depth <= 1 {
        &[0, 1, 2, 3, 5]
    } else {
        &[0, 1, 3]
    };
    let k = c.choose(alts.len() + 1);
    if k == 0 {
        d
    } else {
        alts[k - 1]
    }
}
pub fn gen_vec<T>(c: &mut Ctx, f: impl Fn(&mut Ctx) -> T) -> Vec<T> {
    c.depth += 1;
    let n = gen_len(c);
    let mut v = Vec::new();
    for i in 0..n {
        // elements after the second vary only with the dense counter
        let q = c.quiet;
        if i >= 2 {
            c.quiet = true;
        }
        v.push(f(c));
        c.quiet = q;
    }
    c.depth -= 1;
    v
}
/// Byte strings, with lengths around the limits of one-byte and two-byte counters.
pub fn gen_blob(c: &mut Ctx) -> Vec<u8> {
    let d: usize = match c.mode {
        0 => 0,
        1 => 5,
        _ => 9,
    };
    let alts: &[usize] = if c.rich && c.depth == 0 {
        &[0, 1, 2, 7, 8, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000]
    } else {
        &[0, 1, 33, 257]
    };
    let forced = c.forced_len(L_BYTES);
    let n = match forced {
        Some(n) => n,
        None => {
            let k = c.choose(alts.len() + 1);
            if k == 0 {
                d
            } else {
                alts[k - 1]
            }
        }
    };
    let s = c.next_ctr() as usize;
    (0..n).map(|i| (i * 7 + s * 29 + 1 + (i >> 8) * 11) as u8).collect()
}
pub fn gen_string(c: &mut Ctx) -> String {
    if let Some(n) = c.forced_len(L_BYTES) {
        return (0..n).map(|i| (b' ' + ((i + i / 95) % 95) as u8) as char).collect();
    }
    let d = match c.mode {
        0 => "".to_string(),
        _ => format!("key{}", c.next_ctr()),
    };
    let long: String = "x".repeat(300);
    let alts: Vec<&str> = if c.rich && c.depth == 0 {
        vec![
            "",
            "a",
            "HostAnnouncement",
            "with \"quotes\" and \\ and /",
            "nul\0tab\tnl\n",
            "ünïcödé ☃",
            "\u{2028}\u{10ffff}",
            ":",
            long.as_str(),
        ]
    } else {
        vec!["", "ü\0\"", long.as_str()]
    };
    let k = c.choose(alts.len() + 1);
    if k == 0 {
        d
    } else {
        alts[k - 1].to_string()
    }
}

impl G for u8 {
    fn g(c: &mut Ctx) -> u8 {
        let d = if c.mode == 0 { 0 } else { c.next_ctr() as u8 };
        let a = [0u8, 1, 2, 127, 128, 254, 255];
        let k = c.choose(a.len() + 1);
        if k == 0 {
            d
        } else {
            a[k - 1]
        }
    }
}
impl G for bool {
    fn g(c: &mut Ctx) -> bool {
        let d = c.mode != 0;
        (c.choose(2) == 1) != d
    }
}
impl G for u16 {
    fn g(c: &mut Ctx) -> u16 {
        *c.pick(&[0, 1, 255, 256, 258, 32767, 32768, 65534, 65535])
    }
}
impl G for u32 {
    fn g(c: &mut Ctx) -> u32 {
        *c.pick(&[
            0,
            1,
            255,
            256,
            65535,
            65536,
            0x0102_0304,
            i32::MAX as u32,
            1 << 31,
            u32::MAX - 1,
            u32::MAX,
        ])
    }
}
impl G for usize {
    fn g(c: &mut Ctx) -> usize {
        gen_u64(c) as usize
    }
}
impl G for i16 {
    fn g(c: &mut Ctx) -> i16 {
        *c.pick(&[0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 0x0102, i16::MAX, i16::MIN, i16::MIN + 1])
    }
}
impl G for i32 {
    fn g(c: &mut Ctx) -> i32 {
        *c.pick(&[0, 1, -1, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x01020304, i32::MAX, i32::MIN])
    }
}
impl G for i64 {
    fn g(c: &mut Ctx) -> i64 {
        *c.pick(&[
            0,
            1,
            -1,
            255,
            256,
            -256,
            65536,
            i32::MAX as i64,
            i32::MAX as i64 + 1,
            i32::MIN as i64,
            i32::MIN as i64 - 1,
            1 << 32,
            0x0102030405060708,
            i64::MAX,
            i64::MIN,
        ])
    }
}
impl G for u64 {
    fn g(c: &mut Ctx) -> u64 {
        gen_u64(c)
    }
}
impl G for String {
    fn g(c: &mut Ctx) -> String {
        gen_string(c)
    }
}
impl<T: G> G for Vec<T> {
    fn g(c: &mut Ctx) -> Vec<T> {
        gen_vec(c, T::g)
    }
}
impl<T: G> G for Option<T> {
    fn g(c: &mut Ctx) -> Option<T> {
        let d = c.mode != 0;
        let some = (c.choose(2) == 1) != d;
        if some {
            Some(T::g(c))
        } else {
            None
        }
    }
}
impl<const N: usize> G for [u8; N] {
    fn g(c: &mut Ctx) -> Self {
        gen_bytes(c)
    }
}
pub const TIME_MIN: i64 = -377705116800;
pub const TIME_MAX: i64 = 253402300799;
impl G for OffsetDateTime {
    fn g(c: &mut Ctx) -> Self {
        let d = if c.mode == 0 {
            0
        } else {
            1_400_000_000 + (c.next_ctr() as i64) * 86_413
        };
        let a: &[i64] = if c.json {
            &[0, 1, -1, 951782400, 1433600000, 1 << 31, 1 << 32, TIME_MAX, -62167219200]
        } else {
            &[0, 1, -1, 951782400, 1433600000, 1 << 31, 1 << 32, TIME_MAX, TIME_MIN, TIME_MAX - 1, -(1 << 31) - 1]
        };
        let short = c.depth > 0 || !c.rich;
        let a = if short { &a[..4] } else { a };
        let ns: &[i64] = match (c.frac, short) {
            (false, _) => &[],
            (true, true) => &[1],
            (true, false) => &[1, 999_999_999, 120_000_000, 1_000],
        };
        let k = c.choose(1 + a.len() + ns.len());
        if k > a.len() {
            let n = ns[k - 1 - a.len()];
            // before and after 1970
            let s = if n == 999_999_999 { -2 } else { d };
            return OffsetDateTime::from_unix_timestamp(s).unwrap() + Duration::nanoseconds(n);
        }
        OffsetDateTime::from_unix_timestamp(if k == 0 { d } else { a[k - 1] }).unwrap()
    }
}
impl G for Duration {
    fn g(c: &mut Ctx) -> Self {
        let d = if c.mode == 0 { 0 } else { distinct(c) as i64 };
        let a: [i64; 9] = [0, 1, 999_999_999, 1_000_000_000, 600_000_000_000, 1 << 32, 120_000_000_000_001, i64::MAX - 1, i64::MAX];
        let k = c.choose(a.len() + 1);
        Duration::nanoseconds(if k == 0 { d } else { a[k - 1] })
    }
}
pub const U128S: [u128; 14] = [
    0,
    1,
    255,
    256,
    u64::MAX as u128,
    1 << 64,
    (1 << 64) + 1,
    1_000_000_000_000_000_000_000_000,
    300_000_000_000_000_000_000_000_000_000,
    (1 << 120) - 1,
    1 << 120,
    1 << 127,
    u128::MAX - 1,
    u128::MAX,
];
pub fn gen_u128(c: &mut Ctx) -> u128 {
    let d = if c.mode == 0 {
        0
    } else {
        let k = distinct(c);
        (k as u128) << 40 | 0x0000_a1b2_c3d4_e5f6 & (k as u128)
    };
    if c.rich && c.depth == 0 {
        let k = c.choose(U128S.len() + 1);
        if k == 0 {
            d
        } else {
            U128S[k - 1]
        }
    } else {
        let a = [0u128, 1, 1 << 64, u128::MAX];
        let k = c.choose(a.len() + 1);
        if k == 0 {
            d
        } else {
            a[k - 1]
        }
    }
}
impl G for Currency {
    fn g(c: &mut Ctx) -> Self {
        Currency::new(gen_u128(c))
    }
}
impl G for Work {
    fn g(c: &mut Ctx) -> Self {
        let b: [u8; 32] = gen_bytes(c);
        Work::from(&b)
    }
}
impl G for Specifier {
    fn g(c: &mut Ctx) -> Self {
        Specifier::new(gen_bytes(c))
    }
}
impl G for Address {
    fn g(c: &mut Ctx) -> Self {
        Address::new(gen_bytes(c))
    }
}
impl G for Leaf {
    fn g(c: &mut Ctx) -> Self {
        Leaf::from(gen_bytes::<64>(c))
    }
}
impl G for PublicKey {
    fn g(c: &mut Ctx) -> Self {
        PublicKey::new(gen_bytes(c))
    }
}
impl G for Signature {
    fn g(c: &mut Ctx) -> Self {
        Signature::new(gen_bytes(c))
    }
}
macro_rules! g_id { ($($t:ty),*) => { $(impl G for $t { fn g(c: &mut Ctx) -> Self { <$t>::new(gen_bytes(c)) } })* } }
g_id!(Hash256, SiacoinOutputID, AttestationID, SiafundOutputID, BlockID, TransactionID, FileContractID);

pub fn spec16(s: &[u8]) -> Specifier {
    let mut b = [0u8; 16];
    b[..s.len()].copy_from_slice(s);
    Specifier::new(b)
}
impl G for UnlockKey {
    fn g(c: &mut Ctx) -> Self {
        let algs: &[&[u8]] = if c.json {
            &[b"ed25519", b"", b"entropy", b"sixteen-bytes-xx", b"in\0side", "é☃".as_bytes(), b" sp ace "]
        } else {
            &[b"ed25519", b"", b"entropy", b"sixteen-bytes-xx", b"in\0side", &[0xff, 0xfe], b"a:b", b"\0\0x", &[0xff; 16]]
        };
        let algs = if c.depth > 1 { &algs[..3] } else { algs };
        let a = *c.pick(algs);
        let dl = match c.mode {
            0 => 0usize,
            _ => 32,
        };
        let alts: &[usize] = if c.depth > 1 { &[0, 33] } else { &[0, 1, 31, 32, 33, 64, 256] };
        let n = match c.forced_len(L_BYTES) {
            Some(n) => n,
            None => {
                let k = c.choose(alts.len() + 1);
                if k == 0 {
                    dl
                } else {
                    alts[k - 1]
                }
            }
        };
        let s = c.next_ctr() as usize;
        UnlockKey {
            algorithm: spec16(a),
            key: (0..n).map(|i| (i * 5 + s * 31 + 3 + (i >> 8) * 11 + (s >> 8) * 7) as u8).collect(),
        }
    }
}
#[allow(deprecated)]
pub fn gen_policy(c: &mut Ctx, level: usize) -> SpendPolicy {
    let d = match (c.mode, level) {
        (0, _) => 0,
        (1, 0) => 4, // threshold at the root of the dense bases
        (_, 0) => 4,
        (_, 1) => 2,
        _ => 3,
    };
    let n = if level >= 3 { 6 } else { 7 };
    let k = c.choose(n);
    let kind = if k == 0 {
        d
    } else if k <= d {
        k - 1
    } else {
        k
    };
    // 0 above 1 after 2 pk 3 hash 4 threshold 5 opaque 6 uc
    let kind = if level >= 3 && kind == 4 { 6 } else { kind };
    match kind {
        0 => SpendPolicy::Above(gen_u64(c)),
        // policies count whole seconds
        1 => SpendPolicy::After(OffsetDateTime::g(c).replace_nanosecond(0).unwrap()),
        2 => SpendPolicy::PublicKey(G::g(c)),
        3 => SpendPolicy::Hash(G::g(c)),
        4 => {
            let m = u8::g(c);
            c.depth += 1;
            let alts: &[usize] = if level == 0 { &[0, 1, 2, 3, 4, 5, 17] } else { &[0, 1, 2, 3] };
            let base = match c.mode {
                0 => 0,
                1 => 1,
                _ => 2,
            };
            let forced = c.forced_len(L_POLICIES);
            let n = match forced {
                Some(n) => n,
                None => {
                    let k = c.choose(alts.len() + 1);
                    if k == 0 {
                        base
                    } else {
                        alts[k - 1]
                    }
                }
            };
            let mut of = vec![];
            for i in 0..n {
                let q = c.quiet;
                if i >= 2 {
                    c.quiet = true;
                }
                let mut p = gen_policy(c, level + 1);
                if c.quiet {
                    // cycle through the kinds so that long thresholds are not uniform
                    p = match i % 4 {
                        0 => SpendPolicy::Opaque(Address::new([i as u8; 32])),
                        1 => SpendPolicy::Above(i as u64),
                        _ => p,
                    };
                }
                of.push(p);
                c.quiet = q;
            }
            c.depth -= 1;
            SpendPolicy::Threshold(m, of)
        }
        5 => SpendPolicy::Opaque(G::g(c)),
        _ => SpendPolicy::UnlockConditions(G::g(c)),
    }
}
impl G for SpendPolicy {
    fn g(c: &mut Ctx) -> Self {
        let l = if c.rich { 0 } else { 2 };
        gen_policy(c, l)
    }
}
impl G for ElementAccumulator {
    fn g(c: &mut Ctx) -> Self {
        let d = match c.mode {
            0 => 0u64,
            1 => 1,
            _ => 0b1011,
        };
        let a = [0u64, 1, 2, 3, 0b101, 1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) | 1, u64::MAX, 0xaaaa_aaaa_aaaa_aaaa];
        let k = c.choose(a.len() + 1);
        let num_leaves = if k == 0 { d } else { a[k - 1] };
        let mut trees = [Hash256::default(); 64];
        for (i, t) in trees.iter_mut().enumerate() {
            if num_leaves >> i & 1 == 1 {
                let mut b = [i as u8 + 1; 32];
                b[0] = 0xee;
                *t = Hash256::new(b);
            }
        }
        // one occupied tree may also hold a zero hash
        if num_leaves != 0 && c.choose(2) == 1 {
            trees[num_leaves.trailing_zeros() as usize] = Hash256::default();
        }
        ElementAccumulator { num_leaves, trees }
    }
}
pub fn timestamps_present(height: u64) -> usize {
    height.wrapping_add(1).min(11) as usize
}
pub const HEIGHTS: [u64; 22] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 255, 256, 65535, 300000, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX,
];
impl G for State {
    fn g(c: &mut Ctx) -> Self {
        let k = c.choose(HEIGHTS.len() + 1);
        let height = if k == 0 {
            match c.mode {
                0 => 0,
                1 => 5,
                _ => 400_000,
            }
        } else {
            HEIGHTS[k - 1]
        };
        let id = G::g(c);
        let mut prev_timestamps = [OffsetDateTime::UNIX_EPOCH; 11];
        let n = timestamps_present(height);
        c.depth += 1;
        for t in prev_timestamps.iter_mut().take(n) {
            *t = G::g(c);
        }
        c.depth -= 1;
        State {
            index: ChainIndex { height, id },
            prev_timestamps,
            depth: G::g(c),
            child_target: G::g(c),
            siafund_pool: G::g(c),
            oak_time: G::g(c),
            oak_target: G::g(c),
            foundation_primary_address: G::g(c),
            foundation_failsafe_address: G::g(c),
            total_work: G::g(c),
            difficulty: G::g(c),
            oak_work: G::g(c),
            elements: G::g(c),
            attestations: G::g(c),
        }
    }
}
#[allow(clippy::redundant_closure)]
impl G for Network {
    fn g(c: &mut Ctx) -> Self {
        let k = c.free(4);
        match k {
            1 => Network::mainnet(),
            2 => Network::zen(),
            3 => Network::anagami(),
            _ => Network {
                name: G::g(c),
                initial_coinbase: G::g(c),
                minimum_coinbase: G::g(c),
                initial_target: G::g(c),
                block_interval: G::g(c),
                maturity_delay: G::g(c),
                hardfork_dev_addr: G::g(c),
                hardfork_tax: G::g(c),
                hardfork_storage_proof: G::g(c),
                hardfork_oak: G::g(c),
                hardfork_asic: G::g(c),
                hardfork_foundation: G::g(c),
                hardfork_v2: G::g(c),
            },
        }
    }
}
impl G for v2::ContractResolution {
    fn g(c: &mut Ctx) -> Self {
        let d = c.mode; // expiration, renewal, storage proof
        match (d + c.choose(3)) % 3 {
            0 => v2::ContractResolution::Expiration(),
            1 => v2::ContractResolution::Renewal(G::g(c)),
            _ => v2::ContractResolution::StorageProof(G::g(c)),
        }
    }
}

// ------------------------------------------------------- encoders and decoders

pub trait E2 {
    fn e2(&self, o: &mut Vec<u8>);
}
pub trait E1 {
    fn e1(&self, o: &mut Vec<u8>);
}
/// Position in a byte string; `lenient` is set when a choice was made that the
/// properties leave open.
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub lenient: bool,
    pub steps: u64,
}
pub type DR<T> = Result<T, ()>;
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur {
            b,
            pos: 0,
            lenient: false,
            steps: 0,
        }
    }
    pub fn take(&mut self, n: usize) -> DR<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(());
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    pub fn u64(&mut self) -> DR<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u8(&mut self) -> DR<u8> {
        Ok(self.take(1)?[0])
    }
}
pub trait D2: Sized {
    fn d2(c: &mut Cur) -> DR<Self>;
}
pub trait D1: Sized {
    fn d1(c: &mut Cur) -> DR<Self>;
}
pub trait J {
    fn j(&self) -> Value;
}

fn put_u64(v: u64, o: &mut Vec<u8>) {
    o.extend_from_slice(&v.to_le_bytes());
}

macro_rules! both_prim {
    ($t:ty, $s:ident, $o:ident, $e:block, $c:ident, $d:block) => {
        impl E2 for $t {
            fn e2(&self, $o: &mut Vec<u8>) {
                let $s = self;
                $e
            }
        }
        impl E1 for $t {
            fn e1(&self, $o: &mut Vec<u8>) {
                let $s = self;
                $e
            }
        }
        impl D2 for $t {
            fn d2($c: &mut Cur) -> DR<Self> {
                $d
            }
        }
        impl D1 for $t {
            fn d1($c: &mut Cur) -> DR<Self> {
                $d
            }
        }
    };
}
both_prim!(u8, s, o, { o.push(*s) }, c, { c.u8() });
both_prim!(bool, s, o, { o.push(if *s { 1 } else { 0 }) }, c, {
    match c.u8()? {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(()),
    }
});
both_prim!(u64, s, o, { put_u64(*s, o) }, c, { c.u64() });
both_prim!(usize, s, o, { put_u64(*s as u64, o) }, c, { usize::try_from(c.u64()?).map_err(|_| ()) });
both_prim!(u16, s, o, { put_u64(*s as u64, o) }, c, {
    let v = c.u64()?;
    if v > 0xffff {
        return Err(());
    }
    Ok(v as u16)
});
both_prim!(u32, s, o, { put_u64(*s as u64, o) }, c, {
    let v = c.u64()?;
    if v > 0xffff_ffff {
        return Err(());
    }
    Ok(v as u32)
});
both_prim!(i16, s, o, { o.extend_from_slice(&(*s as i64).to_le_bytes()) }, c, {
    let v = c.u64()? as i64;
    if v < -32768 || v > 32767 {
        return Err(());
    }
    Ok(v as i16)
});
both_prim!(i32, s, o, { o.extend_from_slice(&(*s as i64).to_le_bytes()) }, c, {
    let v = c.u64()? as i64;
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return Err(());
    }
    Ok(v as i32)
});
both_prim!(i64, s, o, { o.extend_from_slice(&s.to_le_bytes()) }, c, { Ok(c.u64()? as i64) });
both_prim!(String, s, o, {
    put_u64(s.len() as u64, o);
    o.extend_from_slice(s.as_bytes());
}, c, {
    let n = c.u64()?;
    if n > c.left() as u64 {
        return Err(());
    }
    let b = c.take(n as usize)?;
    std::str::from_utf8(b).map(|s| s.to_string()).map_err(|_| ())
});

macro_rules! list_codec { ($E:ident,$e:ident,$D:ident,$d:ident) => {
impl<T: $E> $E for Vec<T> { fn $e(&self, o: &mut Vec<u8>) { put_u64(self.len() as u64, o); for x in self { x.$e(o) } } }
impl<T: $E> $E for [T] { fn $e(&self, o: &mut Vec<u8>) { put_u64(self.len() as u64, o); for x in self { x.$e(o) } } }
impl<T: $D> $D for Vec<T> { fn $d(c: &mut Cur) -> DR<Self> {
    let n = c.u64()?;
    let mut v = vec![];
    for _ in 0..n { if c.left() == 0 && std::mem::size_of::<T>() != 0 { return Err(()); } v.push(T::$d(c)?); }
    Ok(v) } }
impl<T: $E> $E for Option<T> { fn $e(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.$e(o) } } } }
impl<T: $D> $D for Option<T> { fn $d(c: &mut Cur) -> DR<Self> { match c.u8()? { 0 => Ok(None), 1 => Ok(Some(T::$d(c)?)), _ => Err(()) } } }
impl<const N: usize> $E for [u8; N] { fn $e(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self[..]) } }
impl<const N: usize> $D for [u8; N] { fn $d(c: &mut Cur) -> DR<Self> { Ok(c.take(N)?.try_into().unwrap()) } }
} }
list_codec!(E2, e2, D2, d2);
list_codec!(E1, e1, D1, d1);

macro_rules! raw_id { ($($t:ty),*) => { $(
both_prim!($t, s, o, { let r: &[u8; 32] = s.as_ref(); o.extend_from_slice(r) }, c, { Ok(<$t>::new(c.take(32)?.try_into().unwrap())) });
impl J for $t { fn j(&self) -> Value { let r: &[u8; 32] = self.as_ref(); Value::String(hexs(r)) } }
)* } }
pub fn hexs(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
raw_id!(Hash256, SiacoinOutputID, AttestationID, SiafundOutputID, BlockID, TransactionID, FileContractID);

pub fn addr_bytes(a: &Address) -> [u8; 32] {
    let r: &[u8] = a.as_ref();
    r.try_into().unwrap()
}
pub fn addr_text(b: &[u8; 32]) -> String {
    format!("{}{}", hexs(b), hexs(&blake(&[b])[..6]))
}
both_prim!(Address, s, o, { o.extend_from_slice(&addr_bytes(s)) }, c, { Ok(Address::new(c.take(32)?.try_into().unwrap())) });
impl J for Address {
    fn j(&self) -> Value {
        Value::String(addr_text(&addr_bytes(self)))
    }
}
pub fn leaf_bytes(l: &Leaf) -> [u8; 64] {
    hex::decode(l.to_string()).unwrap().try_into().unwrap()
}
both_prim!(Leaf, s, o, { o.extend_from_slice(&leaf_bytes(s)) }, c, {
    let b: [u8; 64] = c.take(64)?.try_into().unwrap();
    Ok(Leaf::from(b))
});
impl J for Leaf {
    fn j(&self) -> Value {
        Value::String(hexs(&leaf_bytes(self)))
    }
}
both_prim!(Specifier, s, o, { o.extend_from_slice(s.as_bytes()) }, c, { Ok(Specifier::new(c.take(16)?.try_into().unwrap())) });
both_prim!(Work, s, o, { o.extend_from_slice(&s.to_big_endian()) }, c, {
    let b: [u8; 32] = c.take(32)?.try_into().unwrap();
    Ok(Work::from(&b))
});
impl J for Work {
    fn j(&self) -> Value {
        Value::String(BigUint::from_bytes_be(&self.to_big_endian()).to_string())
    }
}
impl E2 for PublicKey {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(self.as_ref())
    }
}
impl D2 for PublicKey {
    fn d2(c: &mut Cur) -> DR<Self> {
        Ok(PublicKey::new(c.take(32)?.try_into().unwrap()))
    }
}
impl J for PublicKey {
    fn j(&self) -> Value {
        Value::String(format!("ed25519:{}", hexs(self.as_ref())))
    }
}
impl E2 for Signature {
    fn e2(&self, o: &mut Vec<u8>) {
        let r: &[u8; 64] = self.as_ref();
        o.extend_from_slice(r)
    }
}
impl D2 for Signature {
    fn d2(c: &mut Cur) -> DR<Self> {
        Ok(Signature::new(c.take(64)?.try_into().unwrap()))
    }
}
impl J for Signature {
    fn j(&self) -> Value {
        let r: &[u8; 64] = self.as_ref();
        Value::String(hexs(r))
    }
}
impl E2 for OffsetDateTime {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.unix_timestamp().to_le_bytes())
    }
}
impl D2 for OffsetDateTime {
    fn d2(c: &mut Cur) -> DR<Self> {
        let t = c.u64()? as i64;
        if !(TIME_MIN..=TIME_MAX).contains(&t) {
            return Err(());
        }
        OffsetDateTime::from_unix_timestamp(t).map_err(|_| ())
    }
}
impl E2 for Duration {
    fn e2(&self, o: &mut Vec<u8>) {
        put_u64(u64::try_from(self.whole_nanoseconds()).unwrap(), o)
    }
}
impl D2 for Duration {
    fn d2(c: &mut Cur) -> DR<Self> {
        let n = c.u64()?;
        if n > i64::MAX as u64 {
            return Err(());
        }
        Ok(Duration::nanoseconds(n as i64))
    }
}
pub fn cur_u128(c: &Currency) -> u128 {
    **c
}
impl E2 for Currency {
    fn e2(&self, o: &mut Vec<u8>) {
        let v = cur_u128(self);
        put_u64(v as u64, o);
        put_u64((v >> 64) as u64, o);
    }
}
impl D2 for Currency {
    fn d2(c: &mut Cur) -> DR<Self> {
        let lo = c.u64()?;
        let hi = c.u64()?;
        Ok(Currency::new(lo as u128 | (hi as u128) << 64))
    }
}
impl E1 for Currency {
    fn e1(&self, o: &mut Vec<u8>) {
        let b = BigUint::from(cur_u128(self)).to_bytes_be();
        let b: &[u8] = if cur_u128(self) == 0 { &[] } else { &b };
        put_u64(b.len() as u64, o);
        o.extend_from_slice(b);
    }
}
impl D1 for Currency {
    fn d1(c: &mut Cur) -> DR<Self> {
        let n = c.u64()?;
        if n > 16 {
            return Err(());
        }
        let b = c.take(n as usize)?;
        if b.first() == Some(&0) {
            c.lenient = true; // not minimal: the properties leave this open
        }
        let mut v = 0u128;
        for x in b {
            v = v << 8 | *x as u128;
        }
        Ok(Currency::new(v))
    }
}
thread_local! {
    /// write currencies that fit as JSON numbers
    pub static NUMERIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl J for Currency {
    fn j(&self) -> Value {
        if NUMERIC.get() {
            if let Ok(n) = u64::try_from(cur_u128(self)) {
                return json!(n);
            }
        }
        Value::String(BigUint::from(cur_u128(self)).to_string())
    }
}
impl E1 for SiafundOutput {
    fn e1(&self, o: &mut Vec<u8>) {
        Currency::new(self.value as u128).e1(o);
        self.address.e1(o);
        put_u64(0, o);
    }
}
impl D1 for SiafundOutput {
    fn d1(c: &mut Cur) -> DR<Self> {
        let v = cur_u128(&Currency::d1(c)?);
        if v > u64::MAX as u128 {
            return Err(());
        }
        let address = Address::d1(c)?;
        let cs = cur_u128(&Currency::d1(c)?);
        if cs != 0 {
            c.lenient = true;
        }
        Ok(SiafundOutput {
            value: v as u64,
            address,
        })
    }
}
impl E1 for Block {
    fn e1(&self, o: &mut Vec<u8>) {
        self.parent_id.e1(o);
        self.nonce.e1(o);
        self.timestamp.e2(o);
        self.miner_payouts.e1(o);
        self.transactions.e1(o);
    }
}
impl D1 for Block {
    fn d1(c: &mut Cur) -> DR<Self> {
        Ok(Block {
            parent_id: D1::d1(c)?,
            nonce: D1::d1(c)?,
            timestamp: D2::d2(c)?,
            miner_payouts: D1::d1(c)?,
            transactions: D1::d1(c)?,
        })
    }
}

#[allow(deprecated)]
impl E2 for SpendPolicy {
    fn e2(&self, o: &mut Vec<u8>) {
        fn body(p: &SpendPolicy, o: &mut Vec<u8>) {
            match p {
                SpendPolicy::Above(h) => {
                    o.push(1);
                    h.e2(o)
                }
                SpendPolicy::After(t) => {
                    o.push(2);
                    t.e2(o)
                }
                SpendPolicy::PublicKey(k) => {
                    o.push(3);
                    k.e2(o)
                }
                SpendPolicy::Hash(h) => {
                    o.push(4);
                    h.e2(o)
                }
                SpendPolicy::Threshold(n, of) => {
                    o.push(5);
                    o.push(*n);
                    assert!(of.len() <= 255);
                    o.push(of.len() as u8);
                    for p in of {
                        body(p, o)
                    }
                }
                SpendPolicy::Opaque(a) => {
                    o.push(6);
                    a.e2(o)
                }
                SpendPolicy::UnlockConditions(uc) => {
                    o.push(7);
                    uc.e2(o)
                }
            }
        }
        o.push(1);
        body(self, o);
    }
}
#[allow(deprecated)]
impl D2 for SpendPolicy {
    fn d2(c: &mut Cur) -> DR<Self> {
        fn body(c: &mut Cur, total: &mut usize) -> DR<SpendPolicy> {
            Ok(match c.u8()? {
                1 => SpendPolicy::Above(D2::d2(c)?),
                2 => SpendPolicy::After(D2::d2(c)?),
                3 => SpendPolicy::PublicKey(D2::d2(c)?),
                4 => SpendPolicy::Hash(D2::d2(c)?),
                5 => {
                    let n = c.u8()?;
                    let m = c.u8()?;
                    *total += m as usize;
                    if *total > 1024 {
                        return Err(());
                    }
                    let mut of = vec![];
                    for _ in 0..m {
                        of.push(body(c, total)?);
                    }
                    SpendPolicy::Threshold(n, of)
                }
                6 => SpendPolicy::Opaque(D2::d2(c)?),
                7 => SpendPolicy::UnlockConditions(D2::d2(c)?),
                _ => return Err(()),
            })
        }
        if c.u8()? != 1 {
            return Err(());
        }
        body(c, &mut 1)
    }
}
#[allow(deprecated)]
impl J for SpendPolicy {
    fn j(&self) -> Value {
        match self {
            SpendPolicy::Above(h) => json!({"type":"above","policy":h}),
            SpendPolicy::After(t) => json!({"type":"after","policy":t.unix_timestamp() as u64}),
            SpendPolicy::PublicKey(k) => json!({"type":"pk","policy":k.j()}),
            SpendPolicy::Hash(h) => json!({"type":"h","policy":h.j()}),
            SpendPolicy::Threshold(n, of) => {
                json!({"type":"thresh","policy":{"n":n,"of":of.iter().map(|p| p.j()).collect::<Vec<_>>()}})
            }
            SpendPolicy::Opaque(a) => json!({"type":"opaque","policy":a.j()}),
            SpendPolicy::UnlockConditions(uc) => json!({"type":"uc","policy":uc.j()}),
        }
    }
}
impl J for UnlockKey {
    fn j(&self) -> Value {
        let a = self.algorithm.as_bytes();
        let n = a.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
        Value::String(format!("{}:{}", std::str::from_utf8(&a[..n]).unwrap(), hexs(&self.key)))
    }
}
impl E2 for v2::FileContractResolution {
    fn e2(&self, o: &mut Vec<u8>) {
        self.parent.e2(o);
        match &self.resolution {
            v2::ContractResolution::Renewal(r) => {
                o.push(0);
                r.e2(o)
            }
            v2::ContractResolution::StorageProof(p) => {
                o.push(1);
                p.e2(o)
            }
            v2::ContractResolution::Expiration() => o.push(2),
        }
    }
}
impl D2 for v2::FileContractResolution {
    fn d2(c: &mut Cur) -> DR<Self> {
        let parent = D2::d2(c)?;
        let resolution = match c.u8()? {
            0 => v2::ContractResolution::Renewal(D2::d2(c)?),
            1 => v2::ContractResolution::StorageProof(D2::d2(c)?),
            2 => v2::ContractResolution::Expiration(),
            _ => return Err(()),
        };
        Ok(v2::FileContractResolution { parent, resolution })
    }
}
impl J for v2::FileContractResolution {
    fn j(&self) -> Value {
        let (t, r) = match &self.resolution {
            v2::ContractResolution::Renewal(r) => ("renewal", r.j()),
            v2::ContractResolution::StorageProof(p) => ("storageProof", p.j()),
            v2::ContractResolution::Expiration() => ("expiration", json!({})),
        };
        json!({"parent": self.parent.j(), "type": t, "resolution": r})
    }
}
impl E2 for v2::Transaction {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(2);
        let mut bits = 0u64;
        let mut body = vec![];
        macro_rules! part {
            ($i:expr, $p:expr, $v:expr) => {
                if $p {
                    bits |= 1 << $i;
                    $v.e2(&mut body);
                }
            };
        }
        part!(0, self.siacoin_inputs.len() > 0, self.siacoin_inputs);
        part!(1, self.siacoin_outputs.len() > 0, self.siacoin_outputs);
        part!(2, self.siafund_inputs.len() > 0, self.siafund_inputs);
        part!(3, self.siafund_outputs.len() > 0, self.siafund_outputs);
        part!(4, self.file_contracts.len() > 0, self.file_contracts);
        part!(5, self.file_contract_revisions.len() > 0, self.file_contract_revisions);
        part!(6, self.file_contract_resolutions.len() > 0, self.file_contract_resolutions);
        part!(7, self.attestations.len() > 0, self.attestations);
        part!(8, self.arbitrary_data.len() > 0, self.arbitrary_data);
        if let Some(a) = &self.new_foundation_address {
            bits |= 1 << 9;
            a.e2(&mut body);
        }
        part!(10, cur_u128(&self.miner_fee) != 0, self.miner_fee);
        put_u64(bits, o);
        o.extend_from_slice(&body);
    }
}
pub fn empty_v2_txn() -> v2::Transaction {
    v2::Transaction {
        siacoin_inputs: vec![],
        siacoin_outputs: vec![],
        siafund_inputs: vec![],
        siafund_outputs: vec![],
        file_contracts: vec![],
        file_contract_revisions: vec![],
        file_contract_resolutions: vec![],
        attestations: vec![],
        arbitrary_data: vec![],
        new_foundation_address: None,
        miner_fee: Currency::new(0),
    }
}
impl D2 for v2::Transaction {
    fn d2(c: &mut Cur) -> DR<Self> {
        if c.u8()? != 2 {
            return Err(());
        }
        let bits = c.u64()?;
        if bits >> 11 != 0 {
            c.lenient = true; // unknown presence bits: left open
        }
        let mut t = empty_v2_txn();
        macro_rules! part {
            ($i:expr, $f:ident) => {
                if bits >> $i & 1 == 1 {
                    t.$f = D2::d2(c)?;
                    if t.$f.is_empty() {
                        c.lenient = true; // present but empty: left open
                    }
                }
            };
        }
        part!(0, siacoin_inputs);
        part!(1, siacoin_outputs);
        part!(2, siafund_inputs);
        part!(3, siafund_outputs);
        part!(4, file_contracts);
        part!(5, file_contract_revisions);
        part!(6, file_contract_resolutions);
        part!(7, attestations);
        part!(8, arbitrary_data);
        if bits >> 9 & 1 == 1 {
            t.new_foundation_address = Some(D2::d2(c)?);
        }
        if bits >> 10 & 1 == 1 {
            t.miner_fee = D2::d2(c)?;
            if cur_u128(&t.miner_fee) == 0 {
                c.lenient = true;
            }
        }
        Ok(t)
    }
}
impl E2 for ElementAccumulator {
    fn e2(&self, o: &mut Vec<u8>) {
        self.num_leaves.e2(o);
        for i in 0..64 {
            if self.num_leaves >> i & 1 == 1 {
                self.trees[i].e2(o);
            }
        }
    }
}
impl D2 for ElementAccumulator {
    fn d2(c: &mut Cur) -> DR<Self> {
        let n = c.u64()?;
        let mut trees = [Hash256::default(); 64];
        for (i, t) in trees.iter_mut().enumerate() {
            if n >> i & 1 == 1 {
                *t = D2::d2(c)?;
            }
        }
        Ok(ElementAccumulator {
            num_leaves: n,
            trees,
        })
    }
}
impl J for ElementAccumulator {
    fn j(&self) -> Value {
        let t: Vec<Value> = (0..64)
            .filter(|i| self.num_leaves >> i & 1 == 1)
            .map(|i| self.trees[i].j())
            .collect();
        json!({"numLeaves": self.num_leaves, "trees": t})
    }
}
impl E2 for State {
    fn e2(&self, o: &mut Vec<u8>) {
        self.index.e2(o);
        for t in &self.prev_timestamps[..timestamps_present(self.index.height)] {
            t.e2(o);
        }
        self.depth.e2(o);
        self.child_target.e2(o);
        self.siafund_pool.e2(o);
        self.oak_time.e2(o);
        self.oak_target.e2(o);
        self.foundation_primary_address.e2(o);
        self.foundation_failsafe_address.e2(o);
        self.total_work.e2(o);
        self.difficulty.e2(o);
        self.oak_work.e2(o);
        self.elements.e2(o);
        self.attestations.e2(o);
    }
}
impl D2 for State {
    fn d2(c: &mut Cur) -> DR<Self> {
        let index = ChainIndex::d2(c)?;
        let mut prev_timestamps = [OffsetDateTime::UNIX_EPOCH; 11];
        for t in prev_timestamps.iter_mut().take(timestamps_present(index.height)) {
            *t = D2::d2(c)?;
        }
        Ok(State {
            index,
            prev_timestamps,
            depth: D2::d2(c)?,
            child_target: D2::d2(c)?,
            siafund_pool: D2::d2(c)?,
            oak_time: D2::d2(c)?,
            oak_target: D2::d2(c)?,
            foundation_primary_address: D2::d2(c)?,
            foundation_failsafe_address: D2::d2(c)?,
            total_work: D2::d2(c)?,
            difficulty: D2::d2(c)?,
            oak_work: D2::d2(c)?,
            elements: D2::d2(c)?,
            attestations: D2::d2(c)?,
        })
    }
}

// ------------------------------------------------------------- JSON primitives

impl J for u64 {
    fn j(&self) -> Value {
        json!(self)
    }
}
impl J for usize {
    fn j(&self) -> Value {
        json!(*self as u64)
    }
}
impl J for bool {
    fn j(&self) -> Value {
        Value::Bool(*self)
    }
}
impl J for String {
    fn j(&self) -> Value {
        Value::String(self.clone())
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self) -> Value {
        Value::Array(self.iter().map(|x| x.j()).collect())
    }
}
impl<T: J> J for Option<T> {
    fn j(&self) -> Value {
        match self {
            None => Value::Null,
            Some(x) => x.j(),
        }
    }
}
pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(b)
}
/// RFC 3339 text of a UTC time, from its day count (civil-from-days).
pub fn rfc3339(t: &OffsetDateTime) -> String {
    let s = t.unix_timestamp();
    let days = s.div_euclid(86400);
    let sec = s.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    // a fraction without trailing zeros, if any
    let mut frac = String::new();
    if t.nanosecond() != 0 {
        frac = format!(".{:09}", t.nanosecond());
        frac.truncate(frac.trim_end_matches('0').len());
    }
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}Z",
        y,
        m,
        d,
        sec / 3600,
        sec / 60 % 60,
        sec % 60,
        frac
    )
}

macro_rules! jfield {
    ($m:ident, $v:expr, j $k:literal) => {
        $m.insert($k.into(), $v.j());
    };
    ($m:ident, $v:expr, optvec $k:literal) => {
        if !$v.is_empty() {
            $m.insert($k.into(), $v.j());
        }
    };
    ($m:ident, $v:expr, opt $k:literal) => {
        if let Some(x) = &$v {
            $m.insert($k.into(), x.j());
        }
    };
    ($m:ident, $v:expr, b64 $k:literal) => {
        $m.insert($k.into(), Value::String(b64(&$v)));
    };
    ($m:ident, $v:expr, optb64 $k:literal) => {
        if !$v.is_empty() {
            $m.insert($k.into(), Value::String(b64(&$v)));
        }
    };
    ($m:ident, $v:expr, optvb64 $k:literal) => {
        if !$v.is_empty() {
            $m.insert(
                $k.into(),
                Value::Array($v.iter().map(|x| Value::String(b64(x))).collect()),
            );
        }
    };
    ($m:ident, $v:expr, rfc $k:literal) => {
        $m.insert($k.into(), Value::String(rfc3339(&$v)));
    };
    ($m:ident, $v:expr, times $k:literal) => {
        $m.insert(
            $k.into(),
            Value::Array($v.iter().map(|x| Value::String(rfc3339(x))).collect()),
        );
    };
    ($m:ident, $v:expr, nano $k:literal) => {
        $m.insert($k.into(), json!(u64::try_from($v.whole_nanoseconds()).unwrap()));
    };
}
/// Reference reader of JSON documents. `Reject`: must be an error. `Open`: the properties do not decide.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Bad {
    Open,
    Reject,
}
pub type JR<T> = Result<T, Bad>;
#[derive(Default)]
pub struct JCtx {
    /// something in the document may also be refused
    pub open: bool,
}
pub trait DJ: Sized {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self>;
}
pub fn dj_obj<'a>(v: &'a Value, keys: &[&str], x: &mut JCtx) -> JR<&'a Map<String, Value>> {
    match v {
        Value::Object(m) => {
            if m.keys().any(|k| !keys.contains(&k.as_str())) {
                x.open = true;
            }
            Ok(m)
        }
        Value::Array(_) => Err(Bad::Open),
        _ => Err(Bad::Reject),
    }
}
pub fn dj_need<T>(m: &Map<String, Value>, k: &str, x: &mut JCtx, f: fn(&Value, &mut JCtx) -> JR<T>) -> JR<T> {
    match m.get(k) {
        None => Err(Bad::Reject),
        Some(v) => f(v, x),
    }
}
pub fn dj_list<T>(v: &Value, x: &mut JCtx, f: fn(&Value, &mut JCtx) -> JR<T>) -> JR<Vec<T>> {
    let Value::Array(a) = v else { return Err(Bad::Reject) };
    let mut o = vec![];
    let mut worst = None;
    for e in a {
        match f(e, x) {
            Ok(t) => o.push(t),
            Err(e) => worst = worst.max(Some(e)),
        }
    }
    match worst {
        None => Ok(o),
        Some(e) => Err(e),
    }
}
pub fn dj_str(v: &Value) -> JR<&str> {
    v.as_str().ok_or(Bad::Reject)
}
pub fn dj_b64(v: &Value, _: &mut JCtx) -> JR<Vec<u8>> {
    let s = dj_str(v)?.as_bytes();
    if s.len() % 4 != 0 {
        return Err(Bad::Reject);
    }
    let mut o = vec![];
    let pad = s.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 {
        return Err(Bad::Reject);
    }
    let body = &s[..s.len() - pad];
    let (mut acc, mut bits) = (0u32, 0);
    for c in body {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return Err(Bad::Reject),
        };
        acc = acc << 6 | d as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        // bits that do not belong to any byte
        return Err(Bad::Open);
    }
    Ok(o)
}
pub fn dj_rfc(v: &Value, x: &mut JCtx) -> JR<OffsetDateTime> {
    let b = dj_str(v)?.as_bytes();
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let d = b.get(r)?;
        if d.iter().all(|c| c.is_ascii_digit()) {
            std::str::from_utf8(d).ok()?.parse().ok()
        } else {
            None
        }
    };
    let all = (num(0..4), num(5..7), num(8..10), num(11..13), num(14..16), num(17..19));
    let (Some(y), Some(mo), Some(d), Some(h), Some(mi), Some(s)) = all else { return Err(Bad::Reject) };
    if b[4] != b'-' || b[7] != b'-' || b[13] != b':' || b[16] != b':' {
        return Err(Bad::Reject);
    }
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = match mo {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as i64,
        _ => return Err(Bad::Reject),
    };
    if d < 1 || d > dim || h > 23 || mi > 59 || s > 60 {
        return Err(Bad::Reject);
    }
    if b.len() < 20 {
        return Err(Bad::Reject); // no zone
    }
    if b[10] != b'T' || s == 60 || &b[19..] != b"Z" {
        // other separators, leap seconds, fractions, other zones: other forms of a time, or garbage
        let tail = &b[19..];
        let mut k = 0;
        let mut ns = 0;
        if tail[0] == b'.' {
            k = 1 + tail[1..].iter().take_while(|c| c.is_ascii_digit()).count();
            if k == 1 {
                return Err(Bad::Reject);
            }
            if k <= 10 && tail[k - 1] != b'0' {
                ns = tail[1..k].iter().chain(&[b'0'; 9]).take(9).fold(0, |n, c| n * 10 + (c - b'0') as i64);
            }
        }
        let zone = &tail[k..];
        if ns > 0 && b[10] == b'T' && s != 60 && zone == b"Z" {
            // the form in which a time between two seconds is written
            let whole = format!("{}Z", std::str::from_utf8(&b[..19]).unwrap());
            return dj_rfc(&Value::String(whole), x).map(|t| t + Duration::nanoseconds(ns));
        }
        let fine = zone == b"Z" || zone == b"z" || (zone.len() == 6 && (zone[0] == b'+' || zone[0] == b'-') && zone[3] == b':');
        return Err(if fine { Bad::Open } else { Bad::Reject });
    }
    // days from civil
    let y2 = if mo <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let doy = (153 * (if mo > 2 { mo - 3 } else { mo + 9 }) + 2) / 5 + d - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    Ok(OffsetDateTime::from_unix_timestamp(days * 86400 + h * 3600 + mi * 60 + s).unwrap())
}
pub fn dj_times(v: &Value, x: &mut JCtx) -> JR<[OffsetDateTime; 11]> {
    let l = dj_list(v, x, dj_rfc)?;
    match l.len() {
        11 => Ok(l.try_into().unwrap()),
        0..=10 => Err(Bad::Open),
        _ => Err(Bad::Reject),
    }
}
pub fn dj_nano(v: &Value, x: &mut JCtx) -> JR<Duration> {
    let n = u64::dj(v, x)?;
    i64::try_from(n).map(Duration::nanoseconds).map_err(|_| Bad::Reject)
}
macro_rules! djfield {
    ($m:ident, $x:ident, j $k:literal) => { dj_need($m, $k, $x, DJ::dj) };
    ($m:ident, $x:ident, optvec $k:literal) => { match $m.get($k) { None => Ok(Vec::new()), Some(v) => DJ::dj(v, $x) } };
    ($m:ident, $x:ident, opt $k:literal) => { match $m.get($k) { None | Some(Value::Null) => Ok(None), Some(v) => DJ::dj(v, $x).map(Some) } };
    ($m:ident, $x:ident, b64 $k:literal) => { dj_need($m, $k, $x, dj_b64) };
    ($m:ident, $x:ident, optb64 $k:literal) => { match $m.get($k) { None => Ok(Vec::new()), Some(v) => dj_b64(v, $x) } };
    ($m:ident, $x:ident, optvb64 $k:literal) => { match $m.get($k) { None => Ok(Vec::new()), Some(v) => dj_list(v, $x, dj_b64) } };
    ($m:ident, $x:ident, rfc $k:literal) => { dj_need($m, $k, $x, dj_rfc) };
    ($m:ident, $x:ident, times $k:literal) => { dj_need($m, $k, $x, dj_times) };
    ($m:ident, $x:ident, nano $k:literal) => { dj_need($m, $k, $x, dj_nano) };
}
impl DJ for u64 {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        match v {
            Value::Number(n) => match (n.as_u64(), n.as_f64()) {
                (Some(u), _) => Ok(u),
                // 1.0, 1e3, 2^64: numbers in range or not, written in another way
                (_, Some(f)) if f >= 0.0 && f.fract() == 0.0 && f < 1.8446744073709552e19 => Err(Bad::Open),
                _ => Err(Bad::Reject),
            },
            _ => Err(Bad::Reject),
        }
    }
}
impl DJ for usize {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        usize::try_from(u64::dj(v, x)?).map_err(|_| Bad::Reject)
    }
}
impl DJ for bool {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        v.as_bool().ok_or(Bad::Reject)
    }
}
impl DJ for String {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        dj_str(v).map(|s| s.to_string())
    }
}
impl<T: DJ> DJ for Vec<T> {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        dj_list(v, x, T::dj)
    }
}
fn dj_hex<const N: usize>(s: &str) -> JR<[u8; N]> {
    crate::props::refs::unhex(s).and_then(|b| b.try_into().ok()).ok_or(Bad::Reject)
}
macro_rules! dj_id { ($($t:ty),*) => { $(impl DJ for $t { fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
    let s = dj_str(v)?;
    let t = match s.split_once(':') {
        Some((_, t)) => {
            x.open = true;
            t
        }
        None => s,
    };
    Ok(<$t>::new(dj_hex(t)?))
} })* } }
dj_id!(Hash256, SiacoinOutputID, AttestationID, SiafundOutputID, BlockID, TransactionID, FileContractID);
impl DJ for Address {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        crate::props::refs::ref_address(dj_str(v)?).map(Address::new).ok_or(Bad::Reject)
    }
}
impl DJ for Leaf {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        Ok(Leaf::from(dj_hex::<64>(dj_str(v)?)?))
    }
}
impl DJ for Signature {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        Ok(Signature::new(dj_hex(dj_str(v)?)?))
    }
}
impl DJ for PublicKey {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        Ok(PublicKey::new(dj_hex(dj_str(v)?.strip_prefix("ed25519:").ok_or(Bad::Reject)?)?))
    }
}
impl DJ for UnlockKey {
    fn dj(v: &Value, _: &mut JCtx) -> JR<Self> {
        let (a, key) = crate::props::refs::ref_unlock_key(dj_str(v)?).ok_or(Bad::Reject)?;
        Ok(UnlockKey { algorithm: Specifier::new(a), key })
    }
}
impl DJ for Work {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        let s = dj_str(v)?;
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return Err(Bad::Reject);
        }
        if s.len() > 1 && s.starts_with('0') {
            x.open = true;
        }
        let n = BigUint::parse_bytes(format!("0{s}").as_bytes(), 10).unwrap().to_bytes_be();
        if n.len() > 32 {
            return Err(Bad::Reject);
        }
        let mut b = [0u8; 32];
        b[32 - n.len()..].copy_from_slice(&n);
        Ok(Work::from(&b))
    }
}
impl DJ for Currency {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        use crate::props::refs::*;
        match v {
            Value::String(s) => match ref_amount(s) {
                Amount::Value(v) => Ok(Currency::new(v)),
                Amount::Open(v) => {
                    x.open = true;
                    Ok(Currency::new(v))
                }
                Amount::Reject => Err(Bad::Reject),
            },
            Value::Number(n) => match (n.as_u64(), n.as_f64()) {
                (Some(u), _) => Ok(Currency::new(u as u128)),
                (_, Some(f)) if f >= 0.0 && f.fract() == 0.0 => Err(Bad::Open),
                _ => Err(Bad::Reject),
            },
            _ => Err(Bad::Reject),
        }
    }
}
#[allow(deprecated)]
impl DJ for SpendPolicy {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        let m = dj_obj(v, &["type", "policy"], x)?;
        let t = dj_str(m.get("type").ok_or(Bad::Reject)?)?;
        let p = m.get("policy").ok_or(Bad::Reject)?;
        Ok(match t {
            "above" => SpendPolicy::Above(DJ::dj(p, x)?),
            "after" => {
                let s = u64::dj(p, x)?;
                if s > i64::MAX as u64 {
                    return Err(Bad::Open);
                }
                if s > TIME_MAX as u64 {
                    return Err(Bad::Reject);
                }
                SpendPolicy::After(OffsetDateTime::from_unix_timestamp(s as i64).unwrap())
            }
            "pk" => SpendPolicy::PublicKey(DJ::dj(p, x)?),
            "h" => SpendPolicy::Hash(DJ::dj(p, x)?),
            "thresh" => {
                let m = dj_obj(p, &["n", "of"], x)?;
                let n = dj_need(m, "n", x, u64::dj).and_then(|n| u8::try_from(n).map_err(|_| Bad::Reject));
                let of: JR<Vec<SpendPolicy>> = dj_need(m, "of", x, DJ::dj);
                let of = of.and_then(|l| if l.len() > 255 { Err(Bad::Reject) } else { Ok(l) });
                match (n, of) {
                    (Ok(n), Ok(of)) => SpendPolicy::Threshold(n, of),
                    (n, of) => return Err(n.err().max(of.err()).unwrap()),
                }
            }
            "opaque" => SpendPolicy::Opaque(DJ::dj(p, x)?),
            "uc" => SpendPolicy::UnlockConditions(DJ::dj(p, x)?),
            _ => return Err(Bad::Reject),
        })
    }
}
impl DJ for v2::FileContractResolution {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        let m = dj_obj(v, &["parent", "type", "resolution"], x)?;
        let parent: JR<v2::FileContractElement> = dj_need(m, "parent", x, DJ::dj);
        let t = m.get("type").ok_or(Bad::Reject).and_then(dj_str);
        let r = m.get("resolution").ok_or(Bad::Reject);
        let res = match (t, r) {
            (Ok("renewal"), Ok(r)) => DJ::dj(r, x).map(v2::ContractResolution::Renewal),
            (Ok("storageProof"), Ok(r)) => DJ::dj(r, x).map(v2::ContractResolution::StorageProof),
            (Ok("expiration"), Ok(r)) => {
                if *r != json!({}) {
                    x.open = true;
                }
                Ok(v2::ContractResolution::Expiration())
            }
            _ => Err(Bad::Reject),
        };
        match (parent, res) {
            (Ok(parent), Ok(resolution)) => Ok(v2::FileContractResolution { parent, resolution }),
            (a, b) => Err(a.err().max(b.err()).unwrap()),
        }
    }
}
impl DJ for ElementAccumulator {
    fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
        let m = dj_obj(v, &["numLeaves", "trees"], x)?;
        let n: JR<u64> = dj_need(m, "numLeaves", x, DJ::dj);
        let t: JR<Vec<Hash256>> = dj_need(m, "trees", x, DJ::dj);
        let (num_leaves, t) = match (n, t) {
            (Ok(n), Ok(t)) => (n, t),
            (a, b) => return Err(a.err().max(b.err()).unwrap()),
        };
        if t.len() != num_leaves.count_ones() as usize {
            return Err(Bad::Reject);
        }
        let mut trees = [Hash256::default(); 64];
        let mut it = t.into_iter();
        for (i, d) in trees.iter_mut().enumerate() {
            if num_leaves >> i & 1 == 1 {
                *d = it.next().unwrap();
            }
        }
        Ok(ElementAccumulator { num_leaves, trees })
    }
}

macro_rules! gfield {
    ($c:ident, b64 ) => { gen_blob($c) };
    ($c:ident, optb64 ) => { gen_blob($c) };
    ($c:ident, optvb64 ) => { gen_vec($c, gen_blob) };
    ($c:ident, $x:ident ) => { G::g($c) };
}
macro_rules! schema {
    (@G $t:ty; $($f:ident $k:ident $n:literal),*) => { impl G for $t { fn g(c: &mut Ctx) -> Self { let _ = &c; Self { $($f: gfield!(c, $k)),* } } } };
    (@E2 $t:ty; $($f:ident $k:ident $n:literal),*) => {
        impl E2 for $t { fn e2(&self, o: &mut Vec<u8>) { $(self.$f.e2(o);)* } }
        impl D2 for $t { fn d2(c: &mut Cur) -> DR<Self> { Ok(Self { $($f: D2::d2(c)?),* }) } }
    };
    (@E1 $t:ty; $($f:ident $k:ident $n:literal),*) => {
        impl E1 for $t { fn e1(&self, o: &mut Vec<u8>) { $(self.$f.e1(o);)* } }
        impl D1 for $t { fn d1(c: &mut Cur) -> DR<Self> { Ok(Self { $($f: D1::d1(c)?),* }) } }
    };
    (@J $t:ty; $($f:ident $k:ident $n:literal),*) => {
        impl J for $t { fn j(&self) -> Value { let mut m = Map::new(); $(jfield!(m, self.$f, $k $n);)* Value::Object(m) } }
    };
    (@DJ $t:ty; $($f:ident $k:ident $n:literal),*) => {
        impl DJ for $t { fn dj(v: &Value, x: &mut JCtx) -> JR<Self> {
            let m = dj_obj(v, &[$($n),*], x)?;
            $(let $f = djfield!(m, x, $k $n);)*
            let mut worst = None;
            $(if let Err(e) = &$f { worst = worst.max(Some(*e)); })*
            match worst { None => Ok(Self { $($f: $f.ok().unwrap()),* }), Some(e) => Err(e) }
        } }
    };
    ($t:ty, [$($w:ident)*] { $($f:ident: $k:ident $n:literal),* $(,)? }) => { schema!(@each $t, [$($w)*] ($($f $k $n),*)); };
    (@each $t:ty, [] ($($b:tt)*)) => {};
    (@each $t:ty, [$w:ident $($r:ident)*] ($($b:tt)*)) => { schema!(@$w $t; $($b)*); schema!(@each $t, [$($r)*] ($($b)*)); };
}

schema!(ChainIndex, [G E2 J DJ] { height: j "height", id: j "id" });
schema!(SiacoinOutput, [G E1 E2 J DJ] { value: j "value", address: j "address" });
schema!(SiafundOutput, [G E2 J DJ] { value: j "value", address: j "address" });
schema!(StateElement, [G E2 J DJ] { leaf_index: j "leafIndex", merkle_proof: j "merkleProof" });
schema!(UnlockKey, [E1 E2] { algorithm: j "", key: j "" });
schema!(UnlockConditions, [G E1 E2 J DJ] { timelock: j "timelock", public_keys: j "publicKeys", signatures_required: j "signaturesRequired" });
schema!(SatisfiedPolicy, [G E2 J DJ] { policy: j "policy", signatures: optvec "signatures", preimages: optvec "preimages" });
schema!(Block, [G J DJ] { parent_id: j "parentID", nonce: j "nonce", timestamp: rfc "timestamp", miner_payouts: j "minerPayouts", transactions: j "transactions" });

schema!(v1::SiacoinInput, [G E1 J DJ] { parent_id: j "parentID", unlock_conditions: j "unlockConditions" });
schema!(v1::SiafundInput, [G E1 J DJ] { parent_id: j "parentID", unlock_conditions: j "unlockConditions", claim_address: j "claimAddress" });
schema!(v1::FileContract, [G E1 J DJ] { file_size: j "filesize", file_merkle_root: j "fileMerkleRoot", window_start: j "windowStart", window_end: j "windowEnd", payout: j "payout", valid_proof_outputs: j "validProofOutputs", missed_proof_outputs: j "missedProofOutputs", unlock_hash: j "unlockHash", revision_number: j "revisionNumber" });
schema!(v1::FileContractRevision, [G E1 J DJ] { parent_id: j "parentID", unlock_conditions: j "unlockConditions", revision_number: j "revisionNumber", file_size: j "filesize", file_merkle_root: j "fileMerkleRoot", window_start: j "windowStart", window_end: j "windowEnd", valid_proof_outputs: j "validProofOutputs", missed_proof_outputs: j "missedProofOutputs", unlock_hash: j "unlockHash" });
schema!(v1::StorageProof, [G E1 J DJ] { parent_id: j "parentID", leaf: j "leaf", proof: j "proof" });
schema!(CoveredFields, [G E1 J DJ] { whole_transaction: j "wholeTransaction", siacoin_inputs: optvec "siacoinInputs", siacoin_outputs: optvec "siacoinOutputs", file_contracts: optvec "fileContracts", file_contract_revisions: optvec "fileContractRevisions", storage_proofs: optvec "storageProofs", siafund_inputs: optvec "siafundInputs", siafund_outputs: optvec "siafundOutputs", miner_fees: optvec "minerFees", arbitrary_data: optvec "arbitraryData", signatures: optvec "signatures" });
schema!(TransactionSignature, [G E1 J DJ] { parent_id: j "parentID", public_key_index: j "publicKeyIndex", timelock: j "timelock", covered_fields: j "coveredFields", signature: b64 "signature" });
schema!(v1::Transaction, [G E1 J DJ] { siacoin_inputs: optvec "siacoinInputs", siacoin_outputs: optvec "siacoinOutputs", file_contracts: optvec "fileContracts", file_contract_revisions: optvec "fileContractRevisions", storage_proofs: optvec "storageProofs", siafund_inputs: optvec "siafundInputs", siafund_outputs: optvec "siafundOutputs", miner_fees: optvec "minerFees", arbitrary_data: optvb64 "arbitraryData", signatures: optvec "signatures" });

schema!(v2::Attestation, [G E2 J DJ] { public_key: j "publicKey", key: j "key", value: b64 "value", signature: j "signature" });
schema!(v2::FileContract, [G E2 J DJ] { capacity: j "capacity", filesize: j "filesize", file_merkle_root: j "fileMerkleRoot", proof_height: j "proofHeight", expiration_height: j "expirationHeight", renter_output: j "renterOutput", host_output: j "hostOutput", missed_host_value: j "missedHostValue", total_collateral: j "totalCollateral", renter_public_key: j "renterPublicKey", host_public_key: j "hostPublicKey", revision_number: j "revisionNumber", renter_signature: j "renterSignature", host_signature: j "hostSignature" });
schema!(v2::SiacoinElement, [G E2 J DJ] { state_element: j "stateElement", id: j "id", siacoin_output: j "siacoinOutput", maturity_height: j "maturityHeight" });
schema!(v2::SiafundElement, [G E2 J DJ] { state_element: j "stateElement", id: j "id", siafund_output: j "siafundOutput", claim_start: j "claimStart" });
schema!(v2::FileContractElement, [G E2 J DJ] { state_element: j "stateElement", id: j "id", v2_file_contract: j "v2FileContract" });
schema!(v2::ChainIndexElement, [G E2 J DJ] { state_element: j "stateElement", id: j "id", chain_index: j "chainIndex" });
schema!(v2::SiacoinInput, [G E2 J DJ] { parent: j "parent", satisfied_policy: j "satisfiedPolicy" });
schema!(v2::SiafundInput, [G E2 J DJ] { parent: j "parent", claim_address: j "claimAddress", satisfied_policy: j "satisfiedPolicy" });
schema!(v2::FileContractRevision, [G E2 J DJ] { parent: j "parent", revision: j "revision" });
schema!(v2::FileContractRenewal, [G E2 J DJ] { final_revision: j "finalRevision", new_contract: j "newContract", renter_rollover: j "renterRollover", host_rollover: j "hostRollover", renter_signature: j "renterSignature", host_signature: j "hostSignature" });
schema!(v2::StorageProof, [G E2 J DJ] { proof_index: j "proofIndex", leaf: j "leaf", proof: j "proof" });
schema!(v2::FileContractResolution, [G] { parent: j "", resolution: j "" });
schema!(v2::Transaction, [G J DJ] { siacoin_inputs: optvec "siacoinInputs", siacoin_outputs: optvec "siacoinOutputs", siafund_inputs: optvec "siafundInputs", siafund_outputs: optvec "siafundOutputs", file_contracts: optvec "fileContracts", file_contract_revisions: optvec "fileContractRevisions", file_contract_resolutions: optvec "fileContractResolutions", attestations: optvec "attestations", arbitrary_data: optb64 "arbitraryData", new_foundation_address: opt "newFoundationAddress", miner_fee: j "minerFee" });

schema!(State, [J DJ] { index: j "index", prev_timestamps: times "prevTimestamps", depth: j "depth", child_target: j "childTarget", siafund_pool: j "siafundPool", oak_time: nano "oakTime", oak_target: j "oakTarget", foundation_primary_address: j "foundationPrimaryAddress", foundation_failsafe_address: j "foundationFailsafeAddress", total_work: j "totalWork", difficulty: j "difficulty", oak_work: j "oakWork", elements: j "elements", attestations: j "attestations" });
schema!(HardforkDevAddr, [G J DJ] { height: j "height", old_address: j "oldAddress", new_address: j "newAddress" });
schema!(HardforkTax, [G J DJ] { height: j "height" });
schema!(HardforkStorageProof, [G J DJ] { height: j "height" });
schema!(HardforkOak, [G J DJ] { height: j "height", fix_height: j "fixHeight", genesis_timestamp: rfc "genesisTimestamp" });
schema!(HardforkASIC, [G J DJ] { height: j "height", oak_time: nano "oakTime", oak_target: j "oakTarget" });
schema!(HardforkFoundation, [G J DJ] { height: j "height", primary_address: j "primaryAddress", failsafe_address: j "failsafeAddress" });
schema!(HardforkV2, [G J DJ] { allow_height: j "allowHeight", require_height: j "requireHeight" });
schema!(Network, [J DJ] { name: j "name", initial_coinbase: j "initialCoinbase", minimum_coinbase: j "minimumCoinbase", initial_target: j "initialTarget", block_interval: nano "blockInterval", maturity_delay: j "maturityDelay", hardfork_dev_addr: j "hardforkDevAddr", hardfork_tax: j "hardforkTax", hardfork_storage_proof: j "hardforkStorageProof", hardfork_oak: j "hardforkOak", hardfork_asic: j "hardforkASIC", hardfork_foundation: j "hardforkFoundation", hardfork_v2: j "hardforkV2" });
schema!(ChainState, [G J DJ] { network: j "network", state: j "state" });

// ----------------------------------------------------------- semantic encodings

/// v1 transaction without signatures
pub fn v1_nosigs(t: &v1::Transaction) -> Vec<u8> {
    let mut o = vec![];
    t.siacoin_inputs.e1(&mut o);
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    t.siafund_inputs.e1(&mut o);
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o
}
pub fn sem_fc(f: &v2::FileContract, o: &mut Vec<u8>) {
    let mut b = vec![];
    f.e2(&mut b);
    let n = b.len() - 128;
    o.extend_from_slice(&b[..n]);
    o.extend_from_slice(&[0; 128]);
}
pub fn sem_renewal(r: &v2::FileContractRenewal, o: &mut Vec<u8>) {
    sem_fc(&r.final_revision, o);
    sem_fc(&r.new_contract, o);
    r.renter_rollover.e2(o);
    r.host_rollover.e2(o);
    o.extend_from_slice(&[0; 128]);
}
pub fn sem_attestation(a: &v2::Attestation, o: &mut Vec<u8>) {
    a.public_key.e2(o);
    a.key.e2(o);
    a.value.e2(o);
    o.extend_from_slice(&[0; 64]);
}
pub fn sem_txn(t: &v2::Transaction) -> Vec<u8> {
    let mut o = vec![];
    put_u64(t.siacoin_inputs.len() as u64, &mut o);
    for i in &t.siacoin_inputs {
        i.parent.id.e2(&mut o);
    }
    t.siacoin_outputs.e2(&mut o);
    put_u64(t.siafund_inputs.len() as u64, &mut o);
    for i in &t.siafund_inputs {
        i.parent.id.e2(&mut o);
    }
    t.siafund_outputs.e2(&mut o);
    put_u64(t.file_contracts.len() as u64, &mut o);
    for f in &t.file_contracts {
        sem_fc(f, &mut o);
    }
    put_u64(t.file_contract_revisions.len() as u64, &mut o);
    for f in &t.file_contract_revisions {
        f.parent.id.e2(&mut o);
        sem_fc(&f.revision, &mut o);
    }
    put_u64(t.file_contract_resolutions.len() as u64, &mut o);
    for r in &t.file_contract_resolutions {
        r.parent.id.e2(&mut o);
        match &r.resolution {
            v2::ContractResolution::Renewal(n) => sem_renewal(n, &mut o),
            v2::ContractResolution::StorageProof(p) => {
                p.proof_index.state_element.leaf_index.e2(&mut o);
                put_u64(0, &mut o);
                p.proof_index.id.e2(&mut o);
                p.proof_index.chain_index.e2(&mut o);
                p.leaf.e2(&mut o);
                p.proof.e2(&mut o);
            }
            v2::ContractResolution::Expiration() => {}
        }
    }
    t.attestations.e2(&mut o);
    t.arbitrary_data.e2(&mut o);
    t.new_foundation_address.e2(&mut o);
    t.miner_fee.e2(&mut o);
    o
}

/// Root of Sia's Merkle tree over leaf hashes: the left subtree is the largest
/// perfect one.
pub fn merkle_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    match leaves.len() {
        0 => [0; 32],
        1 => leaves[0],
        n => {
            let mut k = 1;
            while k * 2 < n {
                k *= 2;
            }
            let l = merkle_root(&leaves[..k]);
            let r = merkle_root(&leaves[k..]);
            blake(&[&[1], &l, &r])
        }
    }
}
pub fn uc_address(uc: &UnlockConditions) -> [u8; 32] {
    let mut leaves = vec![blake(&[&[0], &uc.timelock.to_le_bytes()])];
    for k in &uc.public_keys {
        let mut b = vec![];
        k.e1(&mut b);
        leaves.push(blake(&[&[0], &b]));
    }
    leaves.push(blake(&[&[0], &uc.signatures_required.to_le_bytes()]));
    merkle_root(&leaves)
}
#[allow(deprecated)]
pub fn policy_address(p: &SpendPolicy) -> [u8; 32] {
    match p {
        SpendPolicy::Opaque(a) => addr_bytes(a),
        SpendPolicy::UnlockConditions(uc) => uc_address(uc),
        SpendPolicy::Threshold(n, of) => {
            let mut b = vec![1u8, 5, *n, of.len() as u8];
            for p in of {
                b.push(6);
                b.extend_from_slice(&policy_address(p));
            }
            blake(&[b"sia/address|", &b])
        }
        _ => {
            let mut b = vec![];
            p.e2(&mut b);
            blake(&[b"sia/address|", &b])
        }
    }
}

/// A chain state whose current height is `height`.
pub fn chain_state(network: Network, height: u64) -> ChainState {
    ChainState {
        network,
        state: State {
            index: ChainIndex {
                height,
                id: BlockID::new([3; 32]),
            },
            prev_timestamps: [OffsetDateTime::UNIX_EPOCH; 11],
            depth: BlockID::new([4; 32]),
            child_target: BlockID::new([5; 32]),
            siafund_pool: Currency::new(77),
            oak_time: Duration::seconds(5),
            oak_target: BlockID::new([6; 32]),
            foundation_primary_address: Address::new([0xf1; 32]),
            foundation_failsafe_address: Address::new([0xf2; 32]),
            total_work: Work::from(&[7; 32]),
            difficulty: Work::from(&[8; 32]),
            oak_work: Work::from(&[9; 32]),
            elements: ElementAccumulator::default(),
            attestations: 3,
        },
    }
}
pub fn ref_replay_prefix(n: &Network, height: u64) -> Vec<u8> {
    if height >= n.hardfork_v2.allow_height {
        vec![2]
    } else if height >= n.hardfork_foundation.height {
        vec![1]
    } else if height >= n.hardfork_asic.height {
        vec![0]
    } else {
        vec![]
    }
}
pub fn key(i: u8) -> PrivateKey {
    PrivateKey::from_seed(&[i; 32])
}
