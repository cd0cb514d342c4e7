//! C24, C25, C27: signatures, recovery phrases, secrets in released memory.
use super::*;
use crate::model::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use sha2::{Digest, Sha256, Sha512};
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::Hash256;
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::sync::OnceLock;

// ------------------------------------------------- an independent RFC 8032

fn hexn(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
struct Curve {
    p: BigUint,
    l: BigUint,
    d: BigUint,
    d2: BigUint,
    sqrt_m1: BigUint,
    base: Pt,
    /// 2^i times the base point
    pows: Vec<Pt>,
}
#[derive(Clone)]
struct Pt {
    x: BigUint,
    y: BigUint,
    z: BigUint,
    t: BigUint,
}
fn curve() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        let p = (BigUint::one() << 255usize) - 19u32;
        let l = (BigUint::one() << 252usize) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        let inv = |a: &BigUint| a.modpow(&(&p - 2u32), &p);
        let d = (&p - (BigUint::from(121665u32) * inv(&BigUint::from(121666u32))) % &p) % &p;
        let sqrt_m1 = BigUint::from(2u32).modpow(&((&p - 1u32) / 4u32), &p);
        let y = (BigUint::from(4u32) * inv(&BigUint::from(5u32))) % &p;
        let d2 = (&d * 2u32) % &p;
        let mut c = Curve {
            p,
            l,
            d,
            d2,
            sqrt_m1,
            base: Pt { x: BigUint::zero(), y: BigUint::one(), z: BigUint::one(), t: BigUint::zero() },
            pows: vec![],
        };
        let mut yb = le(&y, 32);
        yb[31] &= 0x7f;
        c.base = c.decompress(&yb.try_into().unwrap()).unwrap();
        let mut q = c.base.clone();
        for _ in 0..256 {
            c.pows.push(q.clone());
            q = c.add(&q, &q);
        }
        // the base point of RFC 8032
        assert_eq!(c.base.x, hexn("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"));
        c
    })
}
fn le(x: &BigUint, n: usize) -> Vec<u8> {
    let mut b = x.to_bytes_le();
    b.resize(n, 0);
    b
}
impl Curve {
    fn zero(&self) -> Pt {
        Pt { x: BigUint::zero(), y: BigUint::one(), z: BigUint::one(), t: BigUint::zero() }
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let p = &self.p;
        let aa = (self.sub(&a.y, &a.x) * self.sub(&b.y, &b.x)) % p;
        let bb = ((&a.y + &a.x) * (&b.y + &b.x)) % p;
        let cc = (((&a.t * &self.d2) % p) * &b.t) % p;
        let dd = (&a.z * 2u32 * &b.z) % p;
        let (e, f, g, h) = (self.sub(&bb, &aa), self.sub(&dd, &cc), (&dd + &cc) % p, (&bb + &aa) % p);
        Pt { x: (&e * &f) % p, y: (&g * &h) % p, t: (&e * &h) % p, z: (&f * &g) % p }
    }
    fn mul(&self, a: &Pt, n: &BigUint) -> Pt {
        let mut r = self.zero();
        for i in (0..n.bits()).rev() {
            r = self.add(&r, &r);
            if n.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    fn mul_base(&self, n: &BigUint) -> Pt {
        let mut r = self.zero();
        for i in 0..n.bits() {
            if n.bit(i) {
                r = self.add(&r, &self.pows[i as usize]);
            }
        }
        r
    }
    fn compress(&self, a: &Pt) -> [u8; 32] {
        let zi = a.z.modpow(&(&self.p - 2u32), &self.p);
        let x = (&a.x * &zi) % &self.p;
        let y = (&a.y * &zi) % &self.p;
        let mut b = le(&y, 32);
        if x.bit(0) {
            b[31] |= 0x80;
        }
        b.try_into().unwrap()
    }
    fn decompress(&self, b: &[u8; 32]) -> Option<Pt> {
        let p = &self.p;
        let sign = b[31] >> 7;
        let mut yb = *b;
        yb[31] &= 0x7f;
        let y = BigUint::from_bytes_le(&yb) % p;
        let y2 = (&y * &y) % p;
        let u = self.sub(&y2, &BigUint::one());
        let v = (&self.d * &y2 + 1u32) % p;
        let x2 = (&u * v.modpow(&(p - 2u32), p)) % p;
        let mut x = x2.modpow(&((p + 3u32) / 8u32), p);
        if (&x * &x) % p != x2 {
            x = (x * &self.sqrt_m1) % p;
        }
        if (&x * &x) % p != x2 {
            return None;
        }
        if x.bit(0) != (sign == 1) {
            x = (p - x) % p;
        }
        let t = (&x * &y) % p;
        Some(Pt { x, y, z: BigUint::one(), t })
    }
}
fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn expand(seed: &[u8; 32]) -> (BigUint, [u8; 32]) {
    let h = sha512(&[seed]);
    let mut s: [u8; 32] = h[..32].try_into().unwrap();
    s[0] &= 248;
    s[31] &= 127;
    s[31] |= 64;
    (BigUint::from_bytes_le(&s), h[32..].try_into().unwrap())
}
fn ref_public(seed: &[u8; 32]) -> [u8; 32] {
    let c = curve();
    c.compress(&c.mul_base(&expand(seed).0))
}
fn ref_sign_with(seed: &[u8; 32], public: &[u8; 32], m: &[u8], nonce: Option<u64>) -> [u8; 64] {
    let c = curve();
    let (a, pre) = expand(seed);
    let r = match nonce {
        None => BigUint::from_bytes_le(&sha512(&[&pre, m])),
        Some(n) => BigUint::from_bytes_le(&sha512(&[b"other nonce", &n.to_le_bytes(), m])),
    } % &c.l;
    let rb = c.compress(&c.mul_base(&r));
    let k = BigUint::from_bytes_le(&sha512(&[&rb, public, m])) % &c.l;
    let s = (r + k * a) % &c.l;
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&rb);
    o[32..].copy_from_slice(&le(&s, 32));
    o
}
/// The rule every node of the network applies (that of Go's crypto/ed25519): S is
/// below the group order, and R is the encoding of sB - kA. Keys may have unusual
/// encodings and small order.
fn ref_verify(pk: &[u8; 32], m: &[u8], sig: &[u8; 64]) -> bool {
    let c = curve();
    let s = BigUint::from_bytes_le(&sig[32..]);
    if s >= c.l {
        return false;
    }
    let Some(a) = c.decompress(pk) else {
        return false;
    };
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let k = BigUint::from_bytes_le(&sha512(&[&rb, pk, m])) % &c.l;
    let neg = Pt { x: (&c.p - &a.x) % &c.p, y: a.y.clone(), z: a.z.clone(), t: (&c.p - &a.t) % &c.p };
    let r = c.add(&c.mul_base(&s), &c.mul(&neg, &k));
    c.compress(&r) == rb
}

// ---------------------------------------------------------------------- C24

fn seeds32() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32]];
    for i in 0..6u8 {
        v.push([i + 1; 32]);
        v.push(blake(&[b"key", &[i]]));
    }
    for i in [0usize, 15, 31] {
        let mut s = [0u8; 32];
        s[i] = 0x80;
        v.push(s);
    }
    v
}
fn hashes() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32]];
    for i in 0..32 {
        let mut h = [0u8; 32];
        h[i] = 1 << (i % 8);
        v.push(h);
    }
    for i in 0..6u8 {
        v.push(blake(&[b"hash", &[i]]));
    }
    v
}
fn verify(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) -> Result<bool, String> {
    guarded(|| PublicKey::new(*pk).verify(&Hash256::new(*h), &Signature::new(*sig))).map_err(|p| format!("verifying {} with {} for {} panics: {p}", hexs(sig), hexs(pk), hexs(h)))
}
fn expect(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64], want: bool, what: &str) -> Result<(), String> {
    if verify(pk, h, sig)? != want {
        return bad(format!("{what}: signature {} of {} {} under {}", hexs(sig), hexs(h), if want { "does not verify" } else { "verifies" }, hexs(pk)));
    }
    Ok(())
}
fn raw(k: &PrivateKey) -> [u8; 64] {
    k.as_bytes().try_into().unwrap()
}
fn pubkey(k: &PrivateKey) -> [u8; 32] {
    k.public_key().as_ref().try_into().unwrap()
}
/// (public key, signature) of a seed and hash, made by the reference.
fn ref_pair(seed: &[u8; 32], h: &[u8; 32]) -> ([u8; 32], [u8; 64]) {
    let p = ref_public(seed);
    (p, ref_sign_with(seed, &p, h, None))
}
pub fn c24() -> Vec<Unit> {
    vec![
        unit("signatures", 0, u64::MAX, |c| {
            let ss = seeds32();
            let hs = hashes();
            let s = ss[c.free(ss.len())];
            let h = hs[c.free(hs.len())];
            let (p, want) = ref_pair(&s, &h);
            let keys = [PrivateKey::from_seed(&s), Hash256::new(s).into(), PrivateKey::from_seed(&s).clone(), PrivateKey::from(raw(&PrivateKey::from_seed(&s)))];
            for k in &keys {
                if pubkey(k) != p {
                    return bad(format!("the public key of {} is {}, expected {}", hexs(&s), k.public_key(), hexs(&p)));
                }
                if raw(k)[..32] != s || raw(k)[32..] != p {
                    return bad(format!("the private key of {} is {}", hexs(&s), hexs(&raw(k))));
                }
                let sig = k.sign_hash(&Hash256::new(h));
                if sig.data() != want {
                    return bad(format!("the signature of {} by {} is {sig}, expected {}", hexs(&h), hexs(&s), hexs(&want)));
                }
                c.evals += 1;
            }
            expect(&p, &h, &want, true, "own signature")?;
            c.sample(|| format!("{} signs {}: {}", hexs(&s), hexs(&h), hexs(&want)));
            // valid signatures of another implementation
            for n in 0..2 {
                let o = ref_sign_with(&s, &p, &h, Some(n));
                expect(&p, &h, &o, true, "valid signature with another nonce")?;
            }
            // other keys' signatures, other hashes
            for t in &ss {
                if *t != s {
                    let q = pubkey(&PrivateKey::from_seed(t));
                    expect(&q, &h, &want, false, "another key")?;
                    c.evals += 1;
                }
            }
            for g in &hs {
                expect(&p, g, &want, *g == h, "another hash")?;
                c.evals += 1;
            }
            Ok(hash_bytes(&want))
        }),
        // sequences of uses of two keys, each judged on its own
        unit("sequences", 0, u64::MAX, |c| {
            let ss = [[0x11u8; 32], [0x22; 32]];
            let hs = [[5u8; 32], [6u8; 32], { let mut h = [5u8; 32]; h[31] = 0; h }];
            const KINDS: usize = 2 + 7;
            let n = 2 * 3 * KINDS;
            let seq: Vec<usize> = (0..if crate::thorough() { 3 } else { 2 }).map(|_| c.free(n)).collect();
            type Pl = Box<(PrivateKey, PublicKey, Hash256, Signature)>;
            let act = |i: usize, place: &mut Option<Pl>| -> Result<u64, String> {
                let (k, h, w) = (i % 2, i / 2 % 3, i / 6);
                let (p, sig) = ref_pair(&ss[k], &hs[h]);
                let other = ref_pair(&ss[k], &hs[(h + 1) % 3]).1;
                let mut t = match w {
                    4 => ref_pair(&ss[1 - k], &hs[h]).1,
                    5 => other,
                    6 => ref_pair(&ss[k], &hs[(h + 2) % 3]).1,
                    _ => sig,
                };
                match w {
                    3 => t[63] ^= 1,
                    7 => t[..32].copy_from_slice(&other[..32]),
                    8 => t[32..].copy_from_slice(&other[32..]),
                    _ => {}
                }
                let v = (PrivateKey::from_seed(&ss[k]), PublicKey::new(p), Hash256::new(hs[h]), Signature::new(t));
                match place {
                    Some(b) => **b = v,
                    None => *place = Some(Box::new(v)),
                }
                let (key, public, hash, s) = &**place.as_ref().unwrap();
                if w == 0 {
                    let got = key.sign_hash(hash);
                    if got.data() != sig {
                        return bad(format!("the signature of {} by {} is {got}, expected {}", hexs(&hs[h]), hexs(&ss[k]), hexs(&sig)));
                    }
                } else if w == 1 {
                    if pubkey(key) != p {
                        return bad(format!("the public key of {} is {}, expected {}", hexs(&ss[k]), key.public_key(), hexs(&p)));
                    }
                } else {
                    let got = guarded(|| public.verify(hash, s)).map_err(|e| format!("verifying panics: {e}"))?;
                    if got != (t == sig) {
                        return bad(format!("verifying {} of {} by {} gives {got}", hexs(&t), hexs(&hs[h]), hexs(&p)));
                    }
                }
                Ok(i as u64 + 1)
            };
            for fresh in [false, true] {
                let mut place = None;
                for i in seq.iter().chain(&seq[..1]) {
                    if fresh {
                        place = None;
                    }
                    act(*i, &mut place).map_err(|m| format!("{m} (in the sequence {seq:?})"))?;
                    c.evals += 1;
                }
            }
            c.sample(|| format!("{seq:?}"));
            Ok(seq.iter().fold(1, |a, i| a * 61 + *i as u64))
        }),
        unit("bits", 0, u64::MAX, |c| {
            let ss = seeds32();
            let hs = hashes();
            let s = ss[c.free(ss.len())];
            let h = hs[[0, 1, 5, 36][c.free(4)]];
            let k = PrivateKey::from_seed(&s);
            let p = pubkey(&k);
            let sig: [u8; 64] = *k.sign_hash(&Hash256::new(h)).as_ref();
            expect(&p, &h, &sig, true, "own signature")?;
            for i in 0..512 {
                let mut t = sig;
                t[i / 8] ^= 1 << (i % 8);
                expect(&p, &h, &t, false, "flipped signature bit")?;
            }
            for i in 0..256 {
                let mut t = h;
                t[i / 8] ^= 1 << (i % 8);
                expect(&p, &t, &sig, false, "flipped hash bit")?;
                let mut t = p;
                t[i / 8] ^= 1 << (i % 8);
                expect(&t, &h, &sig, false, "flipped key bit")?;
            }
            c.evals += 1024;
            // pieces exchanged or blanked
            let other: [u8; 64] = *k.sign_hash(&Hash256::new([9; 32])).as_ref();
            let mut forms: Vec<[u8; 64]> = vec![[0; 64], [0xff; 64], other];
            for (a, b) in [(&sig, &other), (&other, &sig)] {
                let mut t = *a;
                t[32..].copy_from_slice(&b[32..]);
                forms.push(t);
            }
            let mut t = sig;
            t.rotate_left(32);
            forms.push(t);
            for half in [0..32usize, 32..64] {
                for v in [0u8, 0xff] {
                    let mut t = sig;
                    t[half.clone()].fill(v);
                    forms.push(t);
                }
                let mut t = sig;
                t[half.clone()].reverse();
                forms.push(t);
            }
            for t in forms {
                expect(&p, &h, &t, false, "pieces exchanged")?;
            }
            // S plus multiples of the group order: the same value, another text
            let l = &curve().l;
            let mut sv = BigUint::from_bytes_le(&sig[32..]);
            loop {
                sv += l;
                if sv.bits() > 256 {
                    break;
                }
                let mut t = sig;
                t[32..].copy_from_slice(&le(&sv, 32));
                expect(&p, &h, &t, false, "S not reduced")?;
                c.evals += 1;
            }
            // L - S, with R negated
            let neg = l - BigUint::from_bytes_le(&sig[32..]);
            let mut t = sig;
            t[32..].copy_from_slice(&le(&neg, 32));
            expect(&p, &h, &t, false, "negated S")?;
            t[31] ^= 0x80;
            expect(&p, &h, &t, false, "negated S and R")?;
            Ok(hash_bytes(&sig))
        }),
        // public keys of every form: no panic, never a wrong acceptance
        unit("keys", 0, u64::MAX, |c| {
            let pos = c.free(32);
            let base = [[0u8; 32], [0xff; 32], pubkey(&key(1))][c.free(3)];
            let sig: [u8; 64] = *key(1).sign_hash(&Hash256::new([3; 32])).as_ref();
            let mut invalid = 0;
            for v in 0..=255u8 {
                let mut p = base;
                p[pos] = v;
                let own = p == pubkey(&key(1));
                let got = verify(&p, &[3; 32], &sig)?;
                invalid += curve().decompress(&p).is_none() as u64;
                if got != own {
                    return bad(format!("the signature {} under {}", if got { "verifies" } else { "does not verify" }, hexs(&p)));
                }
                c.evals += 1;
            }
            Ok(pos as u64 ^ hash_bytes(&base) ^ invalid << 32)
        }),
        // signatures of every form under a good key against the reference verdict
        unit("forms", 0, u64::MAX, |c| {
            let k = key(2);
            let p = pubkey(&k);
            let mut h = [5u8; 32];
            h[3] = c.free(if crate::thorough() { 32 } else { 4 }) as u8;
            let s: [u8; 64] = *k.sign_hash(&Hash256::new(h)).as_ref();
            // R: all encodings of small and unusual points and some good ones
            let mut rs: Vec<[u8; 32]> = vec![[0; 32], s[..32].try_into().unwrap(), p, curve().compress(&curve().base)];
            for (a, b) in [(1u8, 0u8), (0, 0x80), (0xec, 0x7f), (0xed, 0x7f), (0xee, 0x7f), (0xff, 0x7f), (0xff, 0xff), (0xee, 0xff)] {
                let mut r = if b & 0x7f == 0x7f { [0xff; 32] } else { [0; 32] };
                r[0] = a;
                r[31] = b;
                rs.push(r);
            }
            for t in ["26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"] {
                let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect();
                let mut r: [u8; 32] = b.try_into().unwrap();
                rs.push(r);
                r[31] ^= 0x80;
                rs.push(r);
            }
            let mut ps = rs.clone();
            ps.push(pubkey(&key(3)));
            let l = &curve().l;
            let mut sv: Vec<BigUint> = vec![BigUint::zero(), BigUint::one(), l - 1u32, l.clone(), l + 1u32, BigUint::from_bytes_le(&s[32..])];
            sv.push((BigUint::one() << 252usize) - 1u32);
            sv.push((BigUint::one() << 255usize) - 1u32);
            sv.push((BigUint::one() << 256usize) - 1u32);
            let r = rs[c.free(rs.len())];
            let x = &sv[c.free(sv.len())];
            let q = ps[c.free(ps.len())];
            let mut sig = [0u8; 64];
            sig[..32].copy_from_slice(&r);
            sig[32..].copy_from_slice(&le(x, 32));
            let (got, want) = (verify(&q, &h, &sig)?, ref_verify(&q, &h, &sig));
            c.evals += 1;
            if got != want {
                return bad(format!("the signature {} of {} under {} {}, for the network {want}", hexs(&sig), hexs(&h), hexs(&q), if got { "verifies" } else { "does not verify" }));
            }
            Ok(hash_bytes(&sig) ^ hash_bytes(&q))
        }),
        // keys and R with a part of small order
        unit("mixed", 0, u64::MAX, |c| {
            let cv = curve();
            let seed = seeds32()[c.free(if crate::thorough() { 8 } else { 3 })];
            let t8: [u8; 32] = (0..32).map(|i| u8::from_str_radix(&"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>().try_into().unwrap();
            let t8 = cv.decompress(&t8).unwrap();
            let (ta, tr) = (cv.mul(&t8, &BigUint::from(c.free(8))), cv.mul(&t8, &BigUint::from(c.free(8))));
            let (a, pre) = expand(&seed);
            let pk = cv.compress(&cv.add(&cv.mul_base(&a), &ta));
            let mut o = 0u64;
            for i in 0..4u8 {
                let h = blake(&[b"mixed", &[i]]);
                let r = BigUint::from_bytes_le(&sha512(&[&pre, &h])) % &cv.l;
                let rb = cv.compress(&cv.add(&cv.mul_base(&r), &tr));
                let k = BigUint::from_bytes_le(&sha512(&[&rb, &pk, &h])) % &cv.l;
                let mut sig = [0u8; 64];
                sig[..32].copy_from_slice(&rb);
                sig[32..].copy_from_slice(&le(&((r + k * &a) % &cv.l), 32));
                let want = ref_verify(&pk, &h, &sig);
                expect(&pk, &h, &sig, want, "points with a part of small order")?;
                o = o << 1 | want as u64;
                c.evals += 1;
            }
            Ok(o ^ hash_bytes(&pk))
        }),
    ]
}

// ---------------------------------------------------------------------- C25

fn words() -> &'static [&'static str; 2048] {
    bip39::Language::English.word_list()
}
fn word_index() -> &'static HashMap<&'static str, u32> {
    static M: OnceLock<HashMap<&'static str, u32>> = OnceLock::new();
    M.get_or_init(|| {
        let w = words();
        // the published list is pinned by its hash
        let mut h = Sha256::new();
        for x in w {
            h.update(x.as_bytes());
            h.update(b"\n");
        }
        assert_eq!(hexs(&h.finalize()), "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", "the English word list");
        w.iter().enumerate().map(|(i, x)| (*x, i as u32)).collect()
    })
}
/// The words of an entropy of 16, 20, 24, 28 or 32 bytes.
fn ref_words(e: &[u8]) -> Vec<u32> {
    let h: [u8; 32] = Sha256::digest(e).into();
    let cs = e.len() * 8 / 32;
    let mut bits: Vec<bool> = vec![];
    for b in e {
        bits.extend((0..8).map(|i| b >> (7 - i) & 1 == 1));
    }
    bits.extend((0..cs).map(|i| h[i / 8] >> (7 - i % 8) & 1 == 1));
    bits.chunks(11).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u32)).collect()
}
fn join(ix: &[u32]) -> String {
    ix.iter().map(|i| words()[*i as usize]).collect::<Vec<_>>().join(" ")
}
fn ref_entropy(ix: &[u32]) -> Option<[u8; 16]> {
    if ix.len() != 12 {
        return None;
    }
    let mut bits: Vec<bool> = vec![];
    for i in ix {
        bits.extend((0..11).map(|k| i >> (10 - k) & 1 == 1));
    }
    let e: [u8; 16] = bits[..128].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect::<Vec<_>>().try_into().unwrap();
    (ref_words(&e) == ix).then_some(e)
}
/// None: left open (unusual case or spacing), then only the value is judged.
fn check_phrase(s: &str) -> Result<u64, String> {
    let got = guarded(|| Seed::from_mnemonic(s).ok().map(|x| x.as_bytes().to_vec())).map_err(|p| format!("parsing {s:?} panics: {p}"))?;
    let canonical: Vec<&str> = s.split(' ').collect();
    let ix = |w: &[&str]| w.iter().map(|x| word_index().get(x).copied()).collect::<Option<Vec<u32>>>();
    let want = ix(&canonical).and_then(|i| ref_entropy(&i));
    let open = ix(&s.split_whitespace().collect::<Vec<_>>()).and_then(|i| ref_entropy(&i));
    let ok = match (&got, &want) {
        (Some(g), Some(w)) => g[..] == w[..],
        (None, None) => true,
        (None, Some(_)) => false,
        (Some(g), None) => open.is_some_and(|o| g[..] == o[..]),
    };
    if !ok {
        return bad(format!("the phrase {s:?} gives {:?}, expected {:?}", got.map(|g| hexs(&g)), want.map(|w| hexs(&w))));
    }
    Ok(got.map_or(7, |g| hash_bytes(&g)))
}
fn entropies() -> Vec<[u8; 16]> {
    let mut v = vec![[0u8; 16], [0xff; 16], [0x80; 16], [0x7f; 16]];
    for i in 0..10u8 {
        v.push(blake(&[b"entropy", &[i]])[..16].try_into().unwrap());
    }
    v
}
fn ref_key(e: &[u8; 16], i: u64) -> [u8; 32] {
    blake(&[&blake(&[e]), &i.to_le_bytes()])
}
pub fn c25() -> Vec<Unit> {
    vec![
        unit("printed", 0, u64::MAX, |c| {
            let es = entropies();
            let mut e = es[c.free(es.len())];
            let pos = c.free(16);
            for v in 0..=255u8 {
                e[pos] = v;
                let want = join(&ref_words(&e));
                let s = Seed::new(e);
                let got = s.to_mnemonic();
                if got != want || s.as_bytes() != e {
                    return bad(format!("the seed {} is printed as {got:?}, expected {want:?}", hexs(&e)));
                }
                check_phrase(&want)?;
                c.evals += 2;
            }
            c.sample(|| join(&ref_words(&e)));
            Ok(hash_bytes(&e) ^ pos as u64)
        }),
        // sequences of uses of seeds, each judged on its own
        unit("sequences", 0, u64::MAX, |c| {
            let es = [[0x31u8; 16], [0x32; 16], { let mut e = [0x31u8; 16]; e[15] = 0x32; e }];
            let is = [0u64, 1, 256, 1 << 32];
            let n = 3 * (4 + 4);
            let seq: Vec<usize> = (0..if crate::thorough() { 3 } else { 2 }).map(|_| c.free(n)).collect();
            for fresh in [false, true] {
                let mut place = Box::new(Seed::new([0; 16]));
                let mut key = Box::new(PrivateKey::from_seed(&[0; 32]));
                let mut text = String::with_capacity(400);
                for i in seq.iter().chain(&seq[..1]) {
                    let (e, w) = (es[i % 3], i / 3);
                    let wrong = |m: String| format!("{m} (in the sequence {seq:?})");
                    let mut words = ref_words(&e);
                    if w == 6 {
                        words[11] ^= 1;
                    }
                    let phrase = join(&words);
                    text.clear();
                    text.push_str(&phrase);
                    if fresh {
                        place = Box::new(Seed::new(e));
                        text = phrase.clone();
                    } else {
                        *place = Seed::new(e);
                    }
                    match w {
                        4 => {
                            let got = place.to_mnemonic();
                            if got != phrase {
                                return Err(wrong(format!("the seed {} is printed as {got:?}, expected {phrase:?}", hexs(&e))));
                            }
                        }
                        5 | 6 => {
                            check_phrase(&text).map_err(wrong)?;
                        }
                        7 => {
                            let half = text.len() / 2;
                            check_phrase(&text[..half]).map_err(wrong)?;
                        }
                        _ => {
                            let want = ref_key(&e, is[w]);
                            *key = place.private_key(is[w]);
                            if raw(&key)[..32] != want || raw(&key)[32..] != ref_public(&want) {
                                return Err(wrong(format!("key {} of seed {} is {}", is[w], hexs(&e), hexs(&raw(&key)))));
                            }
                        }
                    }
                    c.evals += 1;
                }
            }
            c.sample(|| format!("{seq:?}"));
            Ok(seq.iter().fold(1, |a, i| a * 31 + *i as u64))
        }),
        unit("substitutions", 0, u64::MAX, |c| {
            let es = entropies();
            let mut w = ref_words(&es[c.free(es.len())]);
            let pos = c.free(12);
            let mut n = 0;
            for v in 0..2048 {
                w[pos] = v;
                check_phrase(&join(&w))?;
                n += ref_entropy(&w).is_some() as u64;
                c.evals += 1;
            }
            Ok(hash_bytes(join(&w).as_bytes()) ^ n << 40)
        }),
        unit("typos", 0, u64::MAX, |c| {
            let es = entropies();
            let w = ref_words(&es[c.free(es.len())]);
            let pos = c.free(12);
            let t = words()[w[pos] as usize];
            let mut v: Vec<String> = vec![String::new()];
            for i in 0..=t.len() {
                for ch in ('a'..='z').chain(['A', '0', '-', ' ', '\u{e9}', '\u{301}']) {
                    v.push(format!("{}{ch}{}", &t[..i], &t[i..]));
                    if i < t.len() {
                        v.push(format!("{}{ch}{}", &t[..i], &t[i + 1..]));
                    }
                }
                v.push(t[..i].to_string());
                v.push(t[i..].to_string());
                if i < t.len() {
                    v.push(format!("{}{}", &t[..i], &t[i + 1..]));
                }
                if i + 1 < t.len() {
                    let mut b = t.as_bytes().to_vec();
                    b.swap(i, i + 1);
                    v.push(String::from_utf8(b).unwrap());
                }
            }
            for x in &v {
                let mut p: Vec<&str> = w.iter().map(|i| words()[*i as usize]).collect();
                p[pos] = x;
                check_phrase(&p.join(" "))?;
                c.evals += 1;
            }
            Ok(hash_bytes(t.as_bytes()) ^ hash_bytes(join(&w).as_bytes()) ^ pos as u64)
        }),
        unit("order and length", 0, u64::MAX, |c| {
            let es = entropies();
            let w = ref_words(&es[c.free(es.len())]);
            match c.free(7) {
                0 => {
                    for i in 0..12 {
                        for j in 0..12 {
                            let mut t = w.clone();
                            t.swap(i, j);
                            check_phrase(&join(&t))?;
                            t[i] = t[j];
                            check_phrase(&join(&t))?;
                            c.evals += 2;
                        }
                        let mut t = w.clone();
                        t.rotate_left(i);
                        check_phrase(&join(&t))?;
                    }
                }
                1 => {
                    for i in 0..12 {
                        let mut t = w.clone();
                        t.remove(i);
                        check_phrase(&join(&t))?;
                        check_phrase(&join(&w[..i]))?;
                        check_phrase(&join(&w[i..]))?;
                        c.evals += 3;
                    }
                    check_phrase("")?;
                    check_phrase(" ")?;
                }
                2 => {
                    // every word appended or prepended
                    for v in 0..2048 {
                        let mut t = w.clone();
                        t.push(v);
                        check_phrase(&join(&t))?;
                        t.rotate_right(1);
                        check_phrase(&join(&t))?;
                        c.evals += 2;
                    }
                    let mut t = w.clone();
                    t.extend(&w);
                    check_phrase(&join(&t))?;
                }
                3 => {
                    // valid phrases of other lengths
                    for n in [20usize, 24, 28, 32] {
                        for k in 0..40u8 {
                            let mut e = blake(&[&[n as u8, k], join(&w).as_bytes()]).to_vec();
                            e.truncate(n);
                            if k == 0 {
                                e = vec![0; n];
                            }
                            check_phrase(&join(&ref_words(&e)))?;
                            c.evals += 1;
                        }
                    }
                    // 12 valid words followed by more
                    for k in 1..40 {
                        let mut t = w.clone();
                        t.extend((0..k).map(|i| i % 2048));
                        check_phrase(&join(&t))?;
                    }
                }
                4 => {
                    let s = join(&w);
                    for t in [
                        s.to_uppercase(),
                        format!(" {s}"),
                        format!("{s} "),
                        format!("{s}\n"),
                        s.replace(' ', "  "),
                        s.replace(' ', "\t"),
                        s.replace(' ', "\n"),
                        s.replace(' ', "\u{3000}"),
                        s.replace(' ', ","),
                        s.replace(' ', ""),
                        s.replace(' ', "-"),
                        s.replace(' ', "\u{a0}"),
                        format!("{s}\0"),
                        s.replacen(' ', "  ", 1),
                    ] {
                        check_phrase(&t)?;
                        c.evals += 1;
                    }
                }
                5 => {
                    // truncated text
                    let s = join(&w);
                    for i in 0..=s.len() {
                        check_phrase(&s[..i])?;
                        check_phrase(&s[i..])?;
                        c.evals += 2;
                    }
                }
                _ => {
                    // two words changed at once, checksum by chance
                    for i in 0..12 {
                        for j in i + 1..12 {
                            for d in [1u32, 16, 1024, 2047] {
                                let mut t = w.clone();
                                t[i] = (t[i] + d) % 2048;
                                t[j] = (t[j] + 2048 - d) % 2048;
                                check_phrase(&join(&t))?;
                                c.evals += 1;
                            }
                        }
                    }
                }
            }
            Ok(hash_bytes(join(&w).as_bytes()))
        }),
        unit("keys", 0, u64::MAX, |c| {
            let es = entropies();
            let e = es[c.free(es.len())];
            let mut idx: Vec<u64> = (0..20).collect();
            for k in 4..64 {
                idx.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            idx.extend([u64::MAX, u64::MAX - 1, 0x0102_0304_0506_0708]);
            let part = c.free(idx.len().div_ceil(8));
            let s = Seed::new(e);
            let again = Seed::from_mnemonic(&s.to_mnemonic()).map_err(|e| format!("{e:?}"))?;
            let mut h = 0;
            for &i in &idx[part * 8..idx.len().min(part * 8 + 8)] {
                let want = ref_key(&e, i);
                let k = s.private_key(i);
                if raw(&k)[..32] != want || raw(&k)[32..] != ref_public(&want) {
                    return bad(format!("the key {i} of {} is {}, expected seed {}", hexs(&e), hexs(&raw(&k)), hexs(&want)));
                }
                if again.private_key(i) != k || pubkey(&k) != ref_public(&want) {
                    return bad(format!("the key {i} of {} is not recovered", hexs(&e)));
                }
                h ^= hash_bytes(&want);
                c.evals += 1;
            }
            Ok(h)
        }),
        unit("distinct", 0, u64::MAX, |c| {
            let es = entropies();
            let mut e = es[c.free(es.len())];
            let mut seen = HashMap::new();
            for bit in 0..=128 {
                if bit > 0 {
                    e[(bit - 1) / 8] ^= 1 << ((bit - 1) % 8);
                }
                let s = Seed::new(e);
                for i in [0u64, 1, 2, 255, 256, 1 << 32, u64::MAX] {
                    if let Some(o) = seen.insert(raw(&s.private_key(i)), (e, i)) {
                        if o != (e, i) {
                            return bad(format!("{o:?} and {:?} have the same key", (e, i)));
                        }
                    }
                    c.evals += 1;
                }
            }
            Ok(seen.len() as u64 ^ hash_bytes(&e))
        }),
    ]
}

// ---------------------------------------------------------------------- C27

const NWATCH: usize = 16;
#[derive(Clone, Copy)]
struct Watch {
    at: usize,
    len: usize,
    seen: bool,
    bytes: [u8; 64],
}
struct Watches(UnsafeCell<[Watch; NWATCH]>);
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static W: Watches = const { Watches(UnsafeCell::new([Watch { at: 0, len: 0, seen: false, bytes: [0; 64] }; NWATCH])) };
}
#[cfg(not(target_family = "wasm"))]
extern "C" {
    fn __libc_free(p: *mut std::ffi::c_void);
    fn malloc_usable_size(p: *mut std::ffi::c_void) -> usize;
}
/// Every block of memory released by this process passes here. The optimizer
/// knows what `free` does and has removed stores to the block it deems dead.
#[cfg(not(target_family = "wasm"))]
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut std::ffi::c_void) {
    if !p.is_null() && ON.try_with(|o| o.get()).unwrap_or(false) {
        let n = malloc_usable_size(p);
        let a = p as usize;
        let _ = W.try_with(|w| {
            for x in (*w.0.get()).iter_mut() {
                if x.at != 0 && !x.seen && x.at >= a && x.at + x.len <= a + n {
                    x.seen = true;
                    for i in 0..x.len {
                        x.bytes[i] = (x.at as *const u8).add(i).read_volatile();
                    }
                }
            }
        });
    }
    __libc_free(p)
}
fn watch(slot: usize, at: *const u8, len: usize) {
    W.with(|w| unsafe { (*w.0.get())[slot] = Watch { at: at as usize, len, seen: false, bytes: [0; 64] } });
}
fn watched(slot: usize) -> Option<Vec<u8>> {
    W.with(|w| unsafe {
        let x = &(&*w.0.get())[slot];
        x.seen.then(|| x.bytes[..x.len].to_vec())
    })
}
/// What one release looked like: the secret and the memory at that moment.
struct Release {
    what: String,
    secret: Vec<u8>,
    memory: Vec<u8>,
}
/// A byte position keeps its secret if the memory agrees with it in every run
/// although the secrets differ.
fn judge(runs: &[Vec<Release>]) -> Result<(), String> {
    for i in 0..runs[0].len() {
        let first = &runs[0][i];
        let kept: Vec<usize> = (0..first.secret.len())
            .filter(|&k| runs.iter().all(|r| r[i].secret[k] == r[i].memory[k]) && runs.iter().any(|r| r[i].secret[k] != first.secret[k]))
            .collect();
        if !kept.is_empty() {
            return bad(format!("{}: {} of {} secret bytes are still in the released memory", first.what, kept.len(), first.secret.len()));
        }
    }
    Ok(())
}
enum Obj {
    Seed(Box<Seed>),
    Key(Box<PrivateKey>),
}
impl Obj {
    fn bytes(&self) -> &[u8] {
        match self {
            Obj::Seed(s) => s.as_bytes(),
            Obj::Key(k) => k.as_bytes(),
        }
    }
}
struct World {
    run: u8,
    fresh: u8,
    slots: Vec<Option<(Obj, Vec<u8>, String)>>,
    releases: Vec<Release>,
}
const SLOTS: usize = 3;
const RUNS: usize = 4;
impl World {
    fn new(run: usize) -> World {
        ON.with(|o| o.set(true));
        World { run: run as u8, fresh: 0, slots: (0..SLOTS).map(|_| None).collect(), releases: vec![] }
    }
    fn secret(&mut self) -> [u8; 32] {
        self.fresh += 1;
        let mut s = blake(&[b"secret", &[self.run, self.fresh]]);
        if self.fresh % 2 == 0 {
            s[self.fresh as usize * 5 % 16] = 0;
        }
        s
    }
    fn put(&mut self, slot: usize, o: Obj, what: String) {
        let b = o.bytes().to_vec();
        watch(slot, o.bytes().as_ptr(), b.len());
        self.slots[slot] = Some((o, b, what));
    }
    fn released(&mut self, slot: usize, secret: Vec<u8>, what: String) -> Result<(), String> {
        let Some(memory) = watched(slot) else {
            return bad(format!("{what}: dropping it does not release its memory"));
        };
        watch(slot, std::ptr::null(), 0);
        self.releases.push(Release { what, secret, memory });
        Ok(())
    }
    fn alive(&self) -> Result<(), String> {
        for x in self.slots.iter().flatten() {
            if x.0.bytes() != x.1 {
                return bad(format!("{}: its bytes change while it is alive", x.2));
            }
        }
        Ok(())
    }
}
#[inline(never)]
fn drop_plain(o: Obj) {
    match o {
        Obj::Seed(s) => drop(s),
        Obj::Key(k) => drop(k),
    }
}
#[inline(never)]
fn drop_by_panic(o: Obj) {
    let _ = guarded(|| {
        let _keep = o;
        panic!("leaving the scope by a panic");
    });
}
#[inline(never)]
fn drop_by_replacing(o: Obj, fresh: [u8; 32]) {
    // the box is overwritten by another one, which is released too
    match o {
        Obj::Seed(mut s) => {
            s = std::hint::black_box(Box::new(Seed::new(fresh[..16].try_into().unwrap())));
            std::hint::black_box(&s);
        }
        Obj::Key(mut k) => {
            k = std::hint::black_box(Box::new(PrivateKey::from([fresh, fresh].concat().try_into().map(|x: [u8; 64]| x).unwrap())));
            std::hint::black_box(&k);
        }
    }
}
fn history(c: &mut Ctx, depth: usize) -> Res {
    // choose the operations on the first run, repeat them with other secrets
    let mut ops: Vec<(usize, usize)> = vec![];
    let mut runs: Vec<Vec<Release>> = vec![];
    let mut trace = String::new();
    for run in 0..RUNS {
        let mut w = World::new(run);
        let r = (|| -> Result<(), String> {
            for step in 0..depth {
                if run == 0 {
                    // what can be done here?
                    let mut can: Vec<(usize, usize)> = vec![(99, 0)];
                    if w.slots.iter().any(|s| s.is_none()) {
                        can.extend([(0, 0), (1, 0), (2, 0)]);
                    }
                    let room = w.slots.iter().any(|s| s.is_none());
                    for (i, s) in w.slots.iter().enumerate() {
                        match s {
                            Some((Obj::Seed(_), _, _)) => {
                                if room {
                                    can.push((3, i));
                                }
                                can.extend([(5, i), (6, i), (7, i), (8, i)]);
                            }
                            Some((Obj::Key(_), _, _)) => {
                                if room {
                                    can.push((4, i));
                                }
                                can.extend([(5, i), (6, i), (7, i), (8, i)]);
                            }
                            None => {}
                        }
                    }
                    ops.push(can[c.free(can.len())]);
                }
                let (op, i) = ops[step];
                let free = w.slots.iter().position(|s| s.is_none());
                match op {
                    0 => {
                        let s = w.secret();
                        w.put(free.unwrap(), Obj::Seed(Box::new(Seed::new(s[..16].try_into().unwrap()))), "new seed".into());
                    }
                    1 => {
                        let s = w.secret();
                        w.put(free.unwrap(), Obj::Key(Box::new(PrivateKey::from_seed(&s))), "key from seed".into());
                    }
                    2 => {
                        let (s, t) = (w.secret(), w.secret());
                        w.put(free.unwrap(), Obj::Key(Box::new(PrivateKey::from(<[u8; 64]>::try_from([s, t].concat()).unwrap()))), "key from bytes".into());
                    }
                    3 => {
                        let Some((Obj::Seed(s), _, _)) = &w.slots[i] else { unreachable!() };
                        let k = Box::new(s.private_key(step as u64));
                        w.put(free.unwrap(), Obj::Key(k), format!("key {step} of a seed"));
                    }
                    4 => {
                        let Some((Obj::Key(k), b, _)) = &w.slots[i] else { unreachable!() };
                        let n = k.clone();
                        if n.as_bytes() != b {
                            return bad("a clone has other bytes");
                        }
                        w.put(free.unwrap(), Obj::Key(n), "clone of a key".into());
                    }
                    5 => match &w.slots[i] {
                        Some((Obj::Seed(s), _, _)) => {
                            std::hint::black_box(s.to_mnemonic().len());
                        }
                        Some((Obj::Key(k), _, _)) => {
                            std::hint::black_box(k.sign_hash(&Hash256::new([step as u8; 32])));
                        }
                        None => unreachable!(),
                    },
                    6..=8 => {
                        let (o, b, what) = w.slots[i].take().unwrap();
                        match op {
                            6 => drop_plain(o),
                            7 => drop_by_panic(o),
                            _ => drop_by_replacing(o, [0x5c; 32]),
                        }
                        let how = ["dropped", "dropped by a panic", "replaced"][op - 6];
                        w.released(i, b, format!("{what}, {how}"))?;
                    }
                    _ => break,
                }
                w.alive()?;
            }
            // the end of the scope
            for i in 0..SLOTS {
                if let Some((o, b, what)) = w.slots[i].take() {
                    drop_plain(o);
                    w.released(i, b, format!("{what}, dropped at the end"))?;
                    w.alive()?;
                }
            }
            Ok(())
        })();
        ON.with(|o| o.set(false));
        for i in 0..NWATCH {
            watch(i, std::ptr::null(), 0);
        }
        if run == 0 {
            trace = format!("{ops:?}");
        }
        r.map_err(|m| format!("{m}; history {trace}"))?;
        runs.push(w.releases);
    }
    c.evals += runs[0].len() as u64;
    c.sample(|| format!("history {trace}: {} releases", runs[0].len()));
    judge(&runs).map_err(|m| format!("{m}; history {trace}"))?;
    Ok(hash_bytes(trace.as_bytes()))
}

// places a secret may live in; each is left and then inspected
struct Place(UnsafeCell<[u8; 64]>);
/// Where the bytes of a secret are if they lie within its object; otherwise 0, and they are watched
/// until their memory is released.
fn inline_or_watched<T>(o: &T, bytes: &[u8]) -> usize {
    let (at, start) = (std::hint::black_box(bytes.as_ptr()) as usize, o as *const T as usize);
    if at.wrapping_sub(start) < std::mem::size_of::<T>() {
        return at;
    }
    watch(0, bytes.as_ptr(), bytes.len());
    0
}
#[inline(never)]
fn on_stack_key(secret: &[u8; 64], at: &Cell<usize>) {
    let k = PrivateKey::from(*secret);
    at.set(inline_or_watched(&k, k.as_bytes()));
    std::hint::black_box(&k);
}
#[inline(never)]
fn on_stack_seed(secret: &[u8; 64], at: &Cell<usize>) {
    let k = Seed::new(secret[..16].try_into().unwrap());
    at.set(inline_or_watched(&k, k.as_bytes()));
    std::hint::black_box(&k);
}
#[inline(never)]
fn look(at: usize, n: usize) -> [u8; 64] {
    // no calls in between: they would reuse the stack
    let mut o = [0u8; 64];
    let mut i = 0;
    while i < n {
        o[i] = unsafe { (at as *const u8).add(i).read_volatile() };
        i += 1;
    }
    o
}
const PLACES: usize = 12;
/// Puts a secret somewhere, leaves it, and returns the memory it was in.
fn place(k: usize, secret: &[u8; 64]) -> Result<(String, Vec<u8>, Vec<u8>), String> {
    let seed16: [u8; 16] = secret[..16].try_into().unwrap();
    let heap = |at: *const u8, n: usize| watch(0, at, n);
    let taken = |what: &str| -> Result<Vec<u8>, String> {
        match watched(0) {
            Some(m) => Ok(m),
            None => bad(format!("{what}: the memory is not released")),
        }
    };
    let (n, name, mem): (usize, &str, Vec<u8>) = match k {
        0 => {
            let at = Cell::new(0);
            on_stack_key(secret, &at);
            let m = if at.get() != 0 { look(at.get(), 64).to_vec() } else { taken("key on the stack")? };
            (64, "key on the stack", m)
        }
        1 => {
            let at = Cell::new(0);
            on_stack_seed(secret, &at);
            let m = if at.get() != 0 { look(at.get(), 16)[..16].to_vec() } else { taken("seed on the stack")? };
            (16, "seed on the stack", m)
        }
        2 => {
            // dropped in place, in memory that stays
            let mut p = Box::new(std::mem::MaybeUninit::<PrivateKey>::uninit());
            p.write(PrivateKey::from(*secret));
            let k = unsafe { p.assume_init_ref() };
            let at = inline_or_watched(k, k.as_bytes());
            unsafe { p.assume_init_drop() };
            let m = if at != 0 { look(at, 64).to_vec() } else { taken("key dropped in place")? };
            (64, "key dropped in place", m)
        }
        3 => {
            let mut p = Box::new(std::mem::MaybeUninit::<Seed>::uninit());
            p.write(Seed::new(seed16));
            let k = unsafe { p.assume_init_ref() };
            let at = inline_or_watched(k, k.as_bytes());
            unsafe { p.assume_init_drop() };
            let m = if at != 0 { look(at, 16)[..16].to_vec() } else { taken("seed dropped in place")? };
            (16, "seed dropped in place", m)
        }
        4 => {
            let a = std::sync::Arc::new(PrivateKey::from(*secret));
            let b = a.clone();
            heap(a.as_bytes().as_ptr(), 64);
            drop(a);
            if b.as_bytes() != secret {
                return bad("a shared key changes when one owner is dropped");
            }
            drop(b);
            (64, "shared key", taken("shared key")?)
        }
        5 => {
            let a = std::rc::Rc::new(Seed::new(seed16));
            let b = a.clone();
            heap(a.as_bytes().as_ptr(), 16);
            drop(a);
            if b.as_bytes() != seed16 {
                return bad("a shared seed changes when one owner is dropped");
            }
            drop(b);
            (16, "shared seed", taken("shared seed")?)
        }
        6 => {
            let mut v = Vec::with_capacity(3);
            v.push(PrivateKey::from([1; 64]));
            v.push(PrivateKey::from(*secret));
            v.push(PrivateKey::from([2; 64]));
            heap(v[1].as_bytes().as_ptr(), 64);
            drop(std::hint::black_box(v));
            (64, "key in a list", taken("key in a list")?)
        }
        7 => {
            let mut v = Vec::with_capacity(3);
            v.push(Seed::new([1; 16]));
            v.push(Seed::new([2; 16]));
            v.push(Seed::new(seed16));
            heap(v[2].as_bytes().as_ptr(), 16);
            drop(std::hint::black_box(v));
            (16, "seed in a list", taken("seed in a list")?)
        }
        8 => {
            let v = vec![PrivateKey::from([1; 64]), PrivateKey::from(*secret)].into_boxed_slice();
            let mut v = v.into_vec();
            let at = inline_or_watched(&v[1], v[1].as_bytes());
            v.truncate(1); // dropped, but its memory stays with the list
            let m = if at != 0 { look(at, 64).to_vec() } else { taken("truncated list")? };
            std::hint::black_box(&v);
            (64, "truncated list", m)
        }
        9 => {
            let b = Box::new((7u64, PrivateKey::from(*secret), Seed::new(seed16)));
            heap(b.1.as_bytes().as_ptr(), 64);
            watch(1, b.2.as_bytes().as_ptr(), 16);
            drop(b);
            let m = watched(1).unwrap_or_default();
            (80, "key and seed in a struct", [taken("struct")?, m].concat())
        }
        10 => {
            let b: Box<dyn std::any::Any> = Box::new(PrivateKey::from(*secret));
            heap(b.downcast_ref::<PrivateKey>().unwrap().as_bytes().as_ptr(), 64);
            drop(b);
            (64, "type-erased key", taken("type-erased key")?)
        }
        _ => {
            let b = Box::new(std::sync::Mutex::new(Some(PrivateKey::from(*secret))));
            let at = b.lock().unwrap().as_ref().unwrap().as_bytes().as_ptr();
            heap(at, 64);
            drop(b);
            (64, "key in a locked option", taken("locked option")?)
        }
    };
    let mut s = secret.to_vec();
    s.extend(seed16);
    s.truncate(n);
    if mem.len() != n {
        return bad(format!("{name}: the memory is not released"));
    }
    Ok((name.to_string(), s, mem))
}
pub fn c27() -> Vec<Unit> {
    let depth = if crate::thorough() { 6 } else { 5 };
    let mut v = vec![
        unit("histories", 0, u64::MAX, move |c| history(c, depth)),
        unit("places", 0, u64::MAX, |c| {
            let k = c.free(PLACES);
            let mut runs = vec![];
            // plain secrets; with a zero, a one or an all-ones byte at each position; all but one byte zero
            let variant = c.free(8 + 64 * 4) as u16;
            for run in 0..RUNS as u8 {
                let a = blake(&[b"place", &[run], &variant.to_le_bytes()]);
                let b = blake(&[b"place2", &[run], &variant.to_le_bytes()]);
                let mut secret: [u8; 64] = [a, b].concat().try_into().unwrap();
                if let Some(v) = variant.checked_sub(8) {
                    let (at, what) = (v as usize / 4, v % 4);
                    match what {
                        0..=2 => secret[at] = [0, 1, 0xff][what as usize],
                        _ => {
                            let kept = secret[at];
                            secret = [0; 64];
                            secret[at] = kept;
                        }
                    }
                }
                ON.with(|o| o.set(true));
                let r = place(k, &secret);
                ON.with(|o| o.set(false));
                for i in 0..NWATCH {
                    watch(i, std::ptr::null(), 0);
                }
                let (what, secret, memory) = r?;
                runs.push(vec![Release { what, secret, memory }]);
            }
            c.evals += 1;
            let what = runs[0][0].what.clone();
            c.sample(|| what.clone());
            judge(&runs)?;
            Ok((k as u64) << 16 | variant as u64)
        }),
    ];
    for u in v.iter_mut() {
        u.must_repeat = true;
    }
    v
}

#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    let hs = [[5u8; 32], [6u8; 32]];
    for s in [[1u8; 32], [2u8; 32]] {
        for h in hs {
            let (p, sig) = ref_pair(&s, &h);
            o.push(Step {
                name: format!("signing {} with key {}", h[0], s[0]),
                run: Box::new(move |pl| {
                    pl.with((PrivateKey::from_seed(&s), Hash256::new(h)), |(k, x)| {
                        let got = k.sign_hash(x);
                        if got.data() != sig || pubkey(k) != p {
                            return bad(format!("the signature of {} is {got}, expected {}", hexs(&h), hexs(&sig)));
                        }
                        Ok(got.data()[0] as u64)
                    })
                }),
            });
            let mut forged = sig;
            forged[40] ^= 1;
            let other = ref_pair(&s, &hs[(h == hs[0]) as usize]).1;
            let foreign = ref_pair(&[3 - s[0]; 32], &h).1;
            let mut mixed = sig;
            mixed[32..].copy_from_slice(&other[32..]);
            for (n, sg, want) in [("its signature", sig, true), ("a forged signature", forged, false), ("the other hash's signature", other, false), ("the other key's signature", foreign, false), ("a mixed signature", mixed, false)] {
                o.push(Step {
                    name: format!("verifying {n} of {} by key {}", h[0], s[0]),
                    run: Box::new(move |pl| {
                        pl.with((PublicKey::new(p), Hash256::new(h), Signature::new(sg)), |(k, x, y)| {
                            let got = guarded(|| k.verify(x, y)).map_err(|e| format!("verifying panics: {e}"))?;
                            if got != want {
                                return bad(format!("verify gives {got}"));
                            }
                            Ok(want as u64)
                        })
                    }),
                });
            }
        }
    }
    for e in [[3u8; 16], [4; 16]] {
        let good = join(&ref_words(&e));
        text_step(o, format!("parsing phrase {}", e[0]), &good, check_phrase);
        let mut w = ref_words(&e);
        w[11] ^= 1;
        text_step(o, format!("parsing a wrong phrase {}", e[0]), &join(&w), check_phrase);
        for i in [0u64, 1, 1 << 32] {
            let want = ref_key(&e, i);
            let public = ref_public(&want);
            o.push(Step {
                name: format!("key {i} of seed {}", e[0]),
                run: Box::new(move |pl| {
                    pl.with(Seed::new(e), |s| {
                        let k = s.private_key(i);
                        if raw(&k)[..32] != want || raw(&k)[32..] != public {
                            return bad(format!("it is {}, expected seed {}", hexs(&raw(&k)), hexs(&want)));
                        }
                        Ok(i)
                    })
                }),
            });
        }
    }
}
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C24",
        level: MC,
        profiles: C,
        units: c24,
        rule: "keys x hashes against an independent RFC 8032 implementation; for each of 17 keys x 4 hashes every flipped bit of signature, hash and key, every multiple of the group order added to S, exchanged pieces; every byte value at every position of a public key; all combinations of unusual R, S and keys, and keys and R plus each of the eight points of small order, judged by the rule the network applies",
        assumptions: &["points of small order and unusual encodings are only required not to panic"],
    },
    Prop {
        id: "C25",
        level: MC,
        profiles: C,
        units: c25,
        rule: "14 seeds x 16 positions x 256 values printed and parsed; for each seed all 12 x 2048 word substitutions, all letter typos, exchanges, removed and added words, valid phrases of other lengths, truncations - against an independent BIP-39; keys at every boundary index against BLAKE2b and an independent ed25519",
        assumptions: &["left open: letter case and unusual white space (if accepted, the seed must be the same)"],
    },
    Prop {
        id: "C27",
        level: MC,
        profiles: CW,
        units: c27,
        rule: "all histories of at most five (thorough: six) operations (create, derive, clone, use, three ways of dropping) on three slots, each repeated with four secrets, observing the memory passed to free(); all places a secret may live in (stack, in place, shared, lists, structs) - in both optimized profiles",
        assumptions: &["moves of a value by the compiler are outside the property; only the memory of the value at its end of life is judged"],
    },
];
