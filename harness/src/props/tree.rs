//! C17, C18, C19: Merkle trees and the addresses built on them.
use super::*;
use crate::model::*;
use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
use sia::signing::PublicKey;
use sia::types::v1::{UnlockConditions, UnlockKey};
use sia::types::v2::SpendPolicy;
use sia::types::*;
use std::sync::OnceLock;

// ---------------------------------------------------------------------- C17

fn numbered_key(i: usize, variant: usize) -> UnlockKey {
    match variant {
        0 => UnlockKey {
            algorithm: spec16(b"ed25519"),
            key: {
                let mut k = vec![0u8; 32];
                k[..8].copy_from_slice(&(i as u64 + 1).to_le_bytes());
                k
            },
        },
        1 => UnlockKey {
            algorithm: spec16(b"entropy"),
            key: (0..i % 70).map(|j| (i + j) as u8).collect(),
        },
        _ => UnlockKey {
            algorithm: spec16(b"ed25519"),
            key: vec![7; 32], // all the same key
        },
    }
}
fn check_uc(uc: &UnlockConditions) -> Result<u64, String> {
    let got = addr_bytes(&uc.address());
    let want = uc_address(uc);
    if got != want {
        return bad(format!("the address of {} keys is {}, the Merkle root is {}: {}", uc.public_keys.len(), hexs(&got), hexs(&want), dbg(uc)));
    }
    Ok(hash_bytes(&got))
}
pub fn c17() -> Vec<Unit> {
    let max = if crate::thorough() { 2100 } else { 300 };
    vec![
        unit("counts", 0, u64::MAX, move |c| {
            let far = [500usize, 511, 512, 513, 767, 768, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10000, 16383, 16385];
            let i = c.free(max + far.len());
            let n = if i < max { i } else { far[i - max] };
            let variant = c.free(3);
            let keys: Vec<UnlockKey> = (0..n).map(|i| numbered_key(i, variant)).collect();
            let uc = UnlockConditions::new(5, keys, 3);
            if uc.timelock != 5 || uc.signatures_required != 3 || uc.public_keys.len() != n {
                return bad("UnlockConditions::new does not keep its arguments");
            }
            c.sample(|| format!("{n} keys, kind {variant}"));
            c.evals += 1;
            check_uc(&uc)
        }),
        unit("values", 4, b(4_000_000), |c| {
            c.base();
            let uc = UnlockConditions::g(c);
            c.sample(|| dbg(&uc));
            let h = check_uc(&uc)?;
            // and through the deprecated policy
            #[allow(deprecated)]
            let p = SpendPolicy::UnlockConditions(uc.clone());
            if addr_bytes(&p.address()) != uc_address(&uc) {
                return bad(format!("the policy address differs from the unlock conditions' one: {}", dbg(&uc)));
            }
            Ok(h)
        }),
        unit("in place", 3, b(600_000), |c| {
            fn refill(s: &mut UnlockConditions, v: UnlockConditions) {
                s.timelock = v.timelock;
                s.signatures_required = v.signatures_required;
                reuse(&mut s.public_keys, v.public_keys);
            }
            in_place(c, UnlockConditions::g, &[replace, refill], &[("address", check_uc)])
        }),
        unit("standard", 1, 1000, |c| {
            let pk: [u8; 32] = gen_bytes(c);
            let uc = UnlockConditions::standard_unlock_conditions(PublicKey::new(pk));
            let want = UnlockConditions {
                timelock: 0,
                public_keys: vec![UnlockKey { algorithm: spec16(b"ed25519"), key: pk.to_vec() }],
                signatures_required: 1,
            };
            if uc != want {
                return bad(format!("standard unlock conditions are {}", dbg(&uc)));
            }
            check_uc(&uc)
        }),
        // every change of position of a key in a set is a change of the address
        unit("order", 0, u64::MAX, |c| {
            let n = 1 + c.free(20);
            let i = c.free(n);
            let j = c.free(n);
            let base = UnlockConditions::new(0, (0..n).map(|i| numbered_key(i, 0)).collect(), 2);
            let mut keys = base.public_keys.clone();
            let k = keys.remove(i);
            keys.insert(j, k);
            let moved = UnlockConditions::new(0, keys, 2);
            let (a, m) = (base.address(), moved.address());
            c.evals += 1;
            if (a == m) != (i == j) {
                return bad(format!("moving key {i} of {n} to position {j} does not change the address"));
            }
            check_uc(&moved)
        }),
    ]
}

// ---------------------------------------------------------------------- C18

fn check_policy(p: &SpendPolicy) -> Result<[u8; 32], String> {
    let want = policy_address(p);
    let got = addr_bytes(&p.address());
    if got != want {
        return bad(format!("the address is {}, expected {}: {}", hexs(&got), hexs(&want), dbg(p)));
    }
    Ok(want)
}
/// Makes every node for which the explorer says so opaque.
fn opaqued(c: &mut Ctx, p: &SpendPolicy, root: bool, left: &mut u32) -> SpendPolicy {
    if !root && *left > 0 {
        *left -= 1;
        if c.free(2) == 1 {
            return SpendPolicy::Opaque(p.address());
        }
    }
    match p {
        SpendPolicy::Threshold(n, of) => SpendPolicy::Threshold(*n, of.iter().map(|q| opaqued(c, q, false, left)).collect()),
        p => p.clone(),
    }
}
/// Tree shapes: all ordered trees whose inner nodes are thresholds, with the given
/// number of nodes.
fn gen_shape(c: &mut Ctx, nodes: usize, label: &mut u8) -> SpendPolicy {
    *label += 1;
    let l = *label;
    if nodes == 1 {
        return match c.choose(8) {
            0 => SpendPolicy::Above(l as u64),
            1 => SpendPolicy::PublicKey(PublicKey::new([l; 32])),
            2 => SpendPolicy::Hash(Hash256::new([l; 32])),
            3 => SpendPolicy::Opaque(Address::new([l; 32])),
            4 => SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(l as i64 * 1000).unwrap()),
            5 => SpendPolicy::Threshold(l, vec![]),
            6 => {
                #[allow(deprecated)]
                SpendPolicy::UnlockConditions(UnlockConditions::standard_unlock_conditions(PublicKey::new([l; 32])))
            }
            _ => SpendPolicy::Above(u64::MAX - l as u64),
        };
    }
    let mut rest = nodes - 1;
    let mut of = vec![];
    while rest > 0 {
        let k = 1 + c.free(rest);
        of.push(gen_shape(c, k, label));
        rest -= k;
    }
    SpendPolicy::Threshold(l % 3, of)
}
pub fn c18() -> Vec<Unit> {
    let deep = crate::thorough();
    vec![
        unit("values", 4, b(4_000_000), |c| {
            c.base();
            let p = SpendPolicy::g(c);
            c.sample(|| dbg(&p));
            Ok(hash_bytes(&check_policy(&p)?))
        }),
        unit("in place", 3, b(600_000), |c| {
            fn refill(s: &mut SpendPolicy, v: SpendPolicy) {
                match (s, v) {
                    (SpendPolicy::Threshold(n, of), SpendPolicy::Threshold(m, with)) => {
                        *n = m;
                        reuse(of, with);
                    }
                    (s, v) => *s = v,
                }
            }
            in_place(c, SpendPolicy::g, &[replace, refill], &[("address", |p| Ok(hash_bytes(&check_policy(p)?)))])
        }),
        unit("substitution", 3, b(3_000_000), move |c| {
            let nodes = 1 + c.free(if deep { 8 } else { 6 });
            let mut label = 0;
            let p = gen_shape(c, nodes, &mut label);
            let a = check_policy(&p)?;
            let mut left = 12;
            let q = opaqued(c, &p, true, &mut left);
            c.evals += 1;
            c.sample(|| format!("{} as {}", dbg(&p), dbg(&q)));
            if addr_bytes(&q.address()) != a {
                return bad(format!("the address changes when {} becomes {}", dbg(&p), dbg(&q)));
            }
            // an opaque policy at the root keeps the address it names
            if addr_bytes(&SpendPolicy::Opaque(p.address()).address()) != a {
                return bad("an opaque policy does not have the address it names");
            }
            Ok(hash_bytes(dbg(&q).as_bytes()))
        }),
        unit("large", 0, u64::MAX, |c| {
            let width = [0usize, 1, 2, 3, 63, 64, 127, 128, 129, 200, 254, 255][c.free(12)];
            let n = [0u8, 1, 127, 128, 254, 255][c.free(6)];
            let depth = c.free(6);
            let mut p = SpendPolicy::Threshold(n, (0..width).map(|i| match i % 3 {
                0 => SpendPolicy::Above(i as u64),
                1 => SpendPolicy::Opaque(Address::new([i as u8; 32])),
                _ => SpendPolicy::PublicKey(PublicKey::new([i as u8; 32])),
            }).collect());
            for d in 0..depth * 20 {
                p = SpendPolicy::Threshold(1, vec![SpendPolicy::Above(d as u64), p]);
            }
            c.evals += 1;
            check_policy(&p).map(|a| hash_bytes(&a))
        }),
        // different policies have different addresses
        unit("distinct", 0, u64::MAX, |c| {
            let kind = c.free(5);
            let mut seen = std::collections::HashMap::new();
            let mut n = 0u64;
            let mut add = |p: SpendPolicy| -> Result<(), String> {
                n += 1;
                let a = addr_bytes(&p.address());
                if let Some(o) = seen.insert(a, p.clone()) {
                    return bad(format!("{o:?} and {p:?} have the same address"));
                }
                Ok(())
            };
            match kind {
                0 => {
                    for i in 0..64 {
                        add(SpendPolicy::Above(1 << i))?;
                        add(SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(1 << (i % 37)).unwrap() + time::Duration::seconds(i)))?;
                    }
                }
                1 => {
                    for i in 0..256 {
                        let mut k = [0u8; 32];
                        k[i / 8] = 1 << (i % 8);
                        add(SpendPolicy::PublicKey(PublicKey::new(k)))?;
                        add(SpendPolicy::Hash(Hash256::new(k)))?;
                        add(SpendPolicy::Opaque(Address::new(k)))?;
                    }
                }
                2 => {
                    for m in 0..40usize {
                        for n in 0..=255u8 {
                            add(SpendPolicy::Threshold(n, vec![SpendPolicy::Above(1); m]))?;
                        }
                    }
                }
                3 => {
                    // all orders of five different sub-policies
                    let mut idx: Vec<usize> = (0..5).collect();
                    fn perms(k: usize, idx: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> Result<(), String>) -> Result<(), String> {
                        if k == idx.len() {
                            return f(idx);
                        }
                        for i in k..idx.len() {
                            idx.swap(k, i);
                            perms(k + 1, idx, f)?;
                            idx.swap(k, i);
                        }
                        Ok(())
                    }
                    perms(0, &mut idx, &mut |o| {
                        add(SpendPolicy::Threshold(3, o.iter().map(|&i| match i {
                            0 => SpendPolicy::Above(1),
                            1 => SpendPolicy::PublicKey(PublicKey::new([1; 32])),
                            2 => SpendPolicy::Hash(Hash256::new([1; 32])),
                            3 => SpendPolicy::Threshold(1, vec![SpendPolicy::Above(2)]),
                            _ => SpendPolicy::Threshold(1, vec![SpendPolicy::Above(1)]),
                        }).collect()))
                    })?;
                }
                _ => {
                    for m in 0..60usize {
                        for n in 0..4 {
                            #[allow(deprecated)]
                            add(SpendPolicy::UnlockConditions(UnlockConditions::new(n, (0..m).map(|i| numbered_key(i, 0)).collect(), 9)))?;
                        }
                    }
                }
            }
            c.evals += n;
            Ok(n << 3 | kind as u64)
        }),
        // the constructors build what their names say
        unit("constructors", 1, 100_000, |c| {
            let h = u64::g(c);
            let t = time::OffsetDateTime::g(c);
            let k: [u8; 32] = gen_bytes(c);
            for (p, q) in [
                (SpendPolicy::above(h), SpendPolicy::Above(h)),
                (SpendPolicy::after(t), SpendPolicy::After(t)),
                (SpendPolicy::public_key(PublicKey::new(k)), SpendPolicy::PublicKey(PublicKey::new(k))),
                (SpendPolicy::hash(Hash256::new(k)), SpendPolicy::Hash(Hash256::new(k))),
                (
                    SpendPolicy::threshold(7, vec![SpendPolicy::Above(h), SpendPolicy::After(t)]),
                    SpendPolicy::Threshold(7, vec![SpendPolicy::Above(h), SpendPolicy::After(t)]),
                ),
            ] {
                if p != q || addr_bytes(&p.address()) != policy_address(&q) {
                    return bad(format!("a constructor built {p:?} instead of {q:?}"));
                }
            }
            // unlock conditions may not be sub-policies, wherever they stand
            let m = 1 + c.free(4);
            let at = c.free(m);
            let subs: Vec<SpendPolicy> = (0..m).map(|i| {
                if i == at {
                    #[allow(deprecated)]
                    SpendPolicy::unlock_conditions(UnlockConditions::standard_unlock_conditions(PublicKey::new(k)))
                } else {
                    SpendPolicy::Above(1)
                }
            }).collect();
            if guarded(|| SpendPolicy::threshold(1, subs)).is_ok() {
                return bad(format!("threshold accepts unlock conditions as sub-policy {at} of {m}"));
            }
            Ok(h ^ hash_bytes(&k))
        }),
    ]
}

// ---------------------------------------------------------------------- C19

const LEAVES: usize = SECTOR_SIZE / SEGMENT_SIZE;
pub fn pattern(k: usize) -> Vec<u8> {
    let mut s = vec![0u8; SECTOR_SIZE];
    match k {
        0 => {}
        1 => {
            // every segment different
            for (i, seg) in s.chunks_exact_mut(SEGMENT_SIZE).enumerate() {
                for (j, q) in seg.chunks_exact_mut(8).enumerate() {
                    q.copy_from_slice(&((i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (j as u64) << 56).to_le_bytes());
                }
            }
        }
        2 => s.fill(0xff),
        3 => {
            // only the segment number, in the last bytes of each segment
            for (i, seg) in s.chunks_exact_mut(SEGMENT_SIZE).enumerate() {
                seg[56..].copy_from_slice(&(i as u64).to_be_bytes());
            }
        }
        4 => {
            // equal halves, different inside
            for (i, seg) in s.chunks_exact_mut(SEGMENT_SIZE).enumerate() {
                seg[..8].copy_from_slice(&((i % (LEAVES / 2)) as u64).to_le_bytes());
            }
        }
        5 => {
            for (i, x) in s.iter_mut().enumerate() {
                *x = (i % 251) as u8;
            }
        }
        _ => {
            // short data at the front, padding behind
            for (i, x) in s.iter_mut().take(1000).enumerate() {
                *x = (i as u8).wrapping_add(1);
            }
        }
    }
    s
}
pub const PATTERNS: usize = 7;
fn leaf_hash(seg: &[u8]) -> [u8; 32] {
    blake(&[&[0], seg])
}
/// All nodes of the perfect tree, level by level from the leaves.
fn levels(s: &[u8]) -> Vec<Vec<[u8; 32]>> {
    let mut v = vec![s.chunks_exact(SEGMENT_SIZE).map(leaf_hash).collect::<Vec<_>>()];
    while v.last().unwrap().len() > 1 {
        let l = v.last().unwrap();
        let n = l.chunks_exact(2).map(|p| blake(&[&[1], &p[0], &p[1]])).collect();
        v.push(n);
    }
    v
}
pub fn tree(k: usize) -> &'static (Vec<u8>, Vec<Vec<[u8; 32]>>) {
    static T: [OnceLock<(Vec<u8>, Vec<Vec<[u8; 32]>>)>; PATTERNS] = [const { OnceLock::new() }; PATTERNS];
    T[k].get_or_init(|| {
        let s = pattern(k);
        let l = levels(&s);
        (s, l)
    })
}
/// The root after segment `i` was replaced.
fn root_with(l: &[Vec<[u8; 32]>], mut i: usize, seg: &[u8]) -> [u8; 32] {
    let mut h = leaf_hash(seg);
    for lev in &l[..l.len() - 1] {
        let o = lev[i ^ 1];
        h = if i & 1 == 0 { blake(&[&[1], &h, &o]) } else { blake(&[&[1], &o, &h]) };
        i /= 2;
    }
    h
}
fn sector_positions() -> Vec<usize> {
    let mut v = vec![];
    if crate::thorough() {
        v.extend(0..LEAVES);
        return v;
    }
    for i in 0..16 {
        for d in [-2i64, -1, 0, 1, 2, 3] {
            let p = (1i64 << i) + d;
            if (0..LEAVES as i64).contains(&p) {
                v.push(p as usize);
                v.push(LEAVES - 1 - p as usize);
            }
        }
    }
    v.extend((0..LEAVES).step_by(331));
    v.extend(0..40);
    v.push(LEAVES - 1);
    v.sort();
    v.dedup();
    v
}
pub fn c19() -> Vec<Unit> {
    vec![
        unit("patterns", 0, u64::MAX, |c| {
            let k = c.free(PATTERNS);
            let (s, l) = tree(k);
            let got: [u8; 32] = sector_root(s).into();
            let want = l.last().unwrap()[0];
            c.evals += 1;
            c.sample(|| format!("pattern {k}: {}", hexs(&want)));
            if got != want {
                return bad(format!("the root of pattern {k} is {}, expected {}", hexs(&got), hexs(&want)));
            }
            Ok(hash_bytes(&got))
        }),
        unit("positions", 0, u64::MAX, |c| {
            let pos = sector_positions();
            let k = 1 + 2 * c.free(2);
            let i = pos[c.free(pos.len())];
            let (s, l) = tree(k);
            let mut s = s.clone();
            // one byte of one segment differs
            let at = (i * 7 + i / 64) % SEGMENT_SIZE;
            s[i * SEGMENT_SIZE + at] ^= 1 << (i % 8);
            let want = root_with(l, i, &s[i * SEGMENT_SIZE..(i + 1) * SEGMENT_SIZE]);
            let got: [u8; 32] = sector_root(&s).into();
            c.evals += 1;
            c.sample(|| format!("pattern {k}, byte {at} of segment {i} changed"));
            if got != want {
                return bad(format!("the root of pattern {k} with byte {at} of segment {i} changed is {}, expected {}", hexs(&got), hexs(&want)));
            }
            Ok(hash_bytes(&got))
        }),
        // the same buffer, rewritten between calls
        unit("in place", 0, u64::MAX, |c| {
            let i = [0usize, 1, 2, 7, 4095, 32767, 32768, 65535][c.free(8)];
            let (a, z) = [(1, 1), (1, 3), (3, 1), (0, 2)][c.free(4)];
            let mut s = tree(a).0.clone();
            let check = |s: &[u8], want: [u8; 32], what: &str| -> Result<u64, String> {
                let got: [u8; 32] = sector_root(s).into();
                if got != want {
                    return bad(format!("the root of {what} is {}, expected {}", hexs(&got), hexs(&want)));
                }
                Ok(hash_bytes(&got))
            };
            let root = |k: usize| *tree(k).1.last().unwrap().first().unwrap();
            let mut h = check(&s, root(a), "a sector")?;
            s[i * SEGMENT_SIZE + i % SEGMENT_SIZE] ^= 0x10;
            let seg = &s[i * SEGMENT_SIZE..(i + 1) * SEGMENT_SIZE];
            let want = root_with(&tree(a).1, i, seg);
            h ^= check(&s, want, &format!("that sector after changing segment {i} in place"))?;
            s.copy_from_slice(&tree(z).0);
            h ^= check(&s, root(z), "another sector in the same buffer")?;
            c.evals += 3;
            Ok(h)
        }),
        unit("bytes", 0, u64::MAX, |c| {
            let segs = [0usize, 1, 2, 3, 4, 5, 32767, 32768, 65532, 65535];
            let i = segs[c.free(segs.len())];
            let at = c.free(SEGMENT_SIZE);
            let (s, l) = tree(1);
            let mut s = s.clone();
            s[i * SEGMENT_SIZE + at] ^= 0x81;
            let want = root_with(l, i, &s[i * SEGMENT_SIZE..(i + 1) * SEGMENT_SIZE]);
            let got: [u8; 32] = sector_root(&s).into();
            c.evals += 1;
            if got != want {
                return bad(format!("the root with byte {at} of segment {i} changed is {}, expected {}", hexs(&got), hexs(&want)));
            }
            Ok(hash_bytes(&got))
        }),
        // swapping two segments changes the root to the right one
        unit("swaps", 0, u64::MAX, |c| {
            let d = 1usize << c.free(16);
            let i = [0usize, 1, 12345, 40000, 65535][c.free(5)];
            let j = i ^ d;
            let (s, _) = tree(1);
            let mut s = s.clone();
            for q in 0..SEGMENT_SIZE {
                s.swap(i * SEGMENT_SIZE + q, j * SEGMENT_SIZE + q);
            }
            let want = *levels(&s).last().unwrap().first().unwrap();
            let got: [u8; 32] = sector_root(&s).into();
            c.evals += 1;
            if got != want {
                return bad(format!("the root with segments {i} and {j} exchanged is {}, expected {}", hexs(&got), hexs(&want)));
            }
            Ok(hash_bytes(&got))
        }),
        unit("sizes", 0, u64::MAX, |c| {
            let sizes = [
                0usize, 1, 63, 64, 65, 128, 256, 4096, SECTOR_SIZE / 2, SECTOR_SIZE - 64, SECTOR_SIZE - 1, SECTOR_SIZE + 1, SECTOR_SIZE + 63, SECTOR_SIZE + 64, SECTOR_SIZE + 256, 2 * SECTOR_SIZE, 3 * SECTOR_SIZE,
            ];
            let n = sizes[c.free(sizes.len())];
            let fill = [0u8, 0xa5][c.free(2)];
            let s = vec![fill; n];
            c.evals += 1;
            if let Ok(r) = guarded(|| sector_root(&s)) {
                return bad(format!("{n} bytes are accepted as a sector, with root {r:?}"));
            }
            Ok(n as u64 ^ (fill as u64) << 40)
        }),
    ]
}

#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    let a: UnlockConditions = base(1);
    let mut more = a.clone();
    more.public_keys.push(numbered_key(1, 0));
    for (n, u) in [("A", a), ("A and a key", more), ("B", base(2)), ("of 40 keys", UnlockConditions::new(1, (0..40).map(|i| numbered_key(i, 0)).collect(), 2))] {
        step(o, format!("address of unlock conditions {n}"), move || u.clone(), check_uc);
    }
    let leaf = |l: u8| SpendPolicy::PublicKey(PublicKey::new([l; 32]));
    let of = |n: u8, v: Vec<SpendPolicy>| SpendPolicy::Threshold(n, v);
    for (n, p) in [
        ("A", of(1, vec![leaf(1), leaf(2)])),
        ("B", of(1, vec![leaf(1), leaf(3)])),
        ("C", of(1, vec![of(1, vec![leaf(1), leaf(2)]), leaf(2)])),
        ("D", leaf(1)),
    ] {
        step(o, format!("address of policy {n}"), move || p.clone(), |p| Ok(hash_bytes(&check_policy(p)?)));
    }
    for (k, n) in [(1usize, SECTOR_SIZE), (3, SECTOR_SIZE), (1, SECTOR_SIZE - 64)] {
        o.push(Step {
            name: format!("root of {n} bytes of sector {k}"),
            run: Box::new(move |_| {
                let (s, l) = tree(k);
                match guarded(|| sector_root(&s[..n])) {
                    Ok(r) if n == SECTOR_SIZE => {
                        let r: [u8; 32] = r.into();
                        if r != l.last().unwrap()[0] {
                            return bad(format!("the root of pattern {k} is {}", hexs(&r)));
                        }
                        Ok(hash_bytes(&r))
                    }
                    Err(_) if n != SECTOR_SIZE => Ok(0),
                    Ok(_) => bad(format!("{n} bytes are accepted as a sector")),
                    Err(e) => bad(format!("the root of pattern {k} panics: {e}")),
                }
            }),
        });
    }
}
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        level: MC,
        profiles: C,
        units: c17,
        rule: "all numbers of keys up to a bound and boundary numbers, timelocks, required signatures and key contents within the deviation bound, against a recursive reference Merkle root; every reordering, removal and duplication of keys changes the address",
        assumptions: &[],
    },
    Prop {
        id: "C18",
        level: MC,
        profiles: C,
        units: c18,
        rule: "all policy trees up to a depth and width over all kinds x all subsets of nodes replaced by opaque ones, against the reference address; every mutation changes it",
        assumptions: &[],
    },
    Prop {
        id: "C19",
        level: MC,
        profiles: C,
        units: c19,
        rule: "patterned sectors and single-byte differences at every segment boundary position enumerated, against a sequential reference tree; all nearby wrong lengths",
        assumptions: &[],
    },
];
