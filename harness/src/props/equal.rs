//! C31: equality and copies.
use super::reg::*;
use super::*;
use crate::all_wires;
use crate::model::*;
use sia::consensus::*;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::*;
use std::fmt::Debug;

/// Two values generated from the same base value, each with its own deviations.
fn twins<T>(c: &mut Ctx, gen: fn(&mut Ctx) -> T) -> (T, T) {
    let a = gen(c);
    c.ctr = 0;
    c.depth = 0;
    c.rich = true;
    c.lists.clear();
    let b = gen(c);
    (a, b)
}
/// The values compare as their contents do, in both directions and again, and comparing changes nothing.
fn judge<T: PartialEq + Debug>(a: &T, b: &T, canon: fn(&T) -> Vec<u8>) -> Result<u64, String> {
    let (ca, cb) = (canon(a), canon(b));
    let want = ca == cb;
    for _ in 0..2 {
        if (a == b) != want || (b == a) != want || (a != b) == want || (b != a) == want {
            return bad(format!("{} and {} {} but are compared as {}", dbg(a), dbg(b), if want { "have the same contents" } else { "differ" }, if want { "different" } else { "equal" }));
        }
        #[allow(clippy::eq_op)]
        if !(a == a) || a != a || !(b == b) {
            return bad(format!("a value is not equal to itself: {} or {}", dbg(a), dbg(b)));
        }
    }
    if canon(a) != ca || canon(b) != cb {
        return bad(format!("comparing changed {} or {}", dbg(a), dbg(b)));
    }
    Ok(hash_bytes(&ca).rotate_left(1) ^ hash_bytes(&cb))
}
/// The same for lists of the values and optional ones.
fn pair_body<T: G + PartialEq + Debug>(c: &mut Ctx, canon: fn(&T) -> Vec<u8>) -> Res {
    c.base();
    let other = c.free(2) == 1;
    let (a, b) = if other {
        // the next base value
        let a = T::g(c);
        let mut k = Ctx::new(&[], false);
        k.mode = (c.mode + 1) % 3;
        k.json = c.json;
        (a, T::g(&mut k))
    } else {
        twins(c, T::g)
    };
    c.sample(|| format!("{} and {}", dbg(&a), dbg(&b)));
    c.evals += 1;
    judge(&a, &b, canon)
}
fn wire_pairs<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    // the standard library's own types
    const STD: [&str; 14] = ["u8", "bool", "u16", "u32", "u64", "usize", "i16", "i32", "i64", "String", "[u8;4]", "[u8;64]", "OffsetDateTime", "Duration"];
    let t = &name[3..];
    if STD.contains(&t) || t.contains('<') || (W::CODEC == "v1" && TWICE.contains(&t)) {
        return vec![];
    }
    let n = match s {
        Size::Prim => b(60_000),
        Size::Small => b(700_000),
        Size::Big => b(1_700_000),
    };
    vec![unit(format!("pairs/{name}"), 4, n, |c| pair_body::<W::V>(c, W::renc))]
}
/// Types with both codecs.
const TWICE: [&str; 15] = [
    "Hash256", "SiacoinOutputID", "SiafundOutputID", "AttestationID", "BlockID", "TransactionID", "FileContractID", "Address", "Leaf", "Specifier", "Work", "Currency", "SiacoinOutput", "UnlockKey", "UnlockConditions",
];
fn json_canon<T: J>(v: &T) -> Vec<u8> {
    v.j().to_string().into_bytes()
}
fn json_pairs<T: G + J + PartialEq + Debug + 'static>(name: &str, n: u64) -> Unit {
    unit(format!("pairs/{name}"), 4, b(n), |c| {
        c.json = true;
        pair_body::<T>(c, json_canon::<T>)
    })
}

/// A copy is equal, stays what it is when the original changes or goes away, and the other way round.
fn copy_unit<T: G + Clone + PartialEq + Debug + 'static>(name: &str, n: u64, canon: fn(&T) -> Vec<u8>) -> Unit {
    unit(format!("copies/{name}"), 3, b(n), move |c| {
        c.base();
        let (v, o) = pair_of(c, T::g);
        let (cv, co) = (canon(&v), canon(&o));
        let is = |x: &T, w: &Vec<u8>, what: &str| {
            if canon(x) != *w {
                return bad(format!("{what}: {} instead of {}", dbg(x), short(w)));
            }
            Ok(())
        };
        c.sample(|| dbg(&v));
        let mut slot = Box::new(v);
        let w: T = (*slot).clone();
        is(&w, &cv, "a copy differs")?;
        if w != *slot || *slot != w {
            return bad(format!("a copy of {} is not equal to it", dbg(&*slot)));
        }
        // the original is overwritten
        let held = std::mem::replace(&mut *slot, o);
        is(&w, &cv, "a copy changed with its original")?;
        is(&slot, &co, "the value put in place of the original")?;
        drop(held);
        is(&w, &cv, "a copy changed when its original went away")?;
        // copies of copies, into memory that holds another value
        let mut x = (*slot).clone();
        x.clone_from(&w);
        is(&x, &cv, "a value copied over another one")?;
        is(&slot, &co, "the value whose copy was overwritten")?;
        is(&w, &cv, "a value that was copied")?;
        let list = vec![w, x, (*slot).clone()];
        let copies = list.clone();
        drop(list);
        drop(slot);
        is(&copies[0], &cv, "a list's copy")?;
        is(&copies[1], &cv, "a list's copy")?;
        is(&copies[2], &co, "a list's copy")?;
        if copies[0] != copies[1] || (copies[0] == copies[2]) != (cv == co) {
            return bad(format!("copies compare differently from their originals: {}", dbg(&copies)));
        }
        c.evals += 8;
        Ok(hash_bytes(&cv).rotate_left(1) ^ hash_bytes(&co))
    })
}
fn pair_of<T>(c: &mut Ctx, gen: fn(&mut Ctx) -> T) -> (T, T) {
    let next = c.free(3);
    let v = gen(c);
    let mut k = Ctx::new(&[], false);
    k.mode = (c.mode + next) % 3;
    (v, gen(&mut k))
}
fn v2_canon<T: E2>(v: &T) -> Vec<u8> {
    let mut o = vec![];
    v.e2(&mut o);
    o
}
fn v1_canon<T: E1>(v: &T) -> Vec<u8> {
    let mut o = vec![];
    v.e1(&mut o);
    o
}
/// Keys have no generator: 64 bytes stand for one.
fn private_keys(c: &mut Ctx) -> Res {
    c.base();
    let (a, b) = twins(c, gen_bytes::<64>);
    let canon = |k: &PrivateKey| k.as_bytes().to_vec();
    let (x, y) = (PrivateKey::from(a), PrivateKey::from(b));
    let h = judge(&x, &y, canon)?;
    if canon(&x) != a || canon(&x.clone()) != a || x.clone() != x {
        return bad(format!("a key or its copy has other bytes than {}", short(&a)));
    }
    let mut z = y.clone();
    z.clone_from(&x);
    drop(x);
    if canon(&z) != a || canon(&y) != b {
        return bad(format!("a key's copy changed: {} and {}", short(&a), short(&b)));
    }
    c.evals += 1;
    Ok(h)
}
/// Elements of two different values' digits: a difference at any single position counts.
fn bytes_unit<T: Clone + PartialEq + Debug + 'static, const N: usize>(name: &'static str, make: fn([u8; N]) -> T) -> Unit {
    unit(format!("bytes/{name}"), 0, u64::MAX, move |c| {
        let base = [[0u8; N], [0xff; N], std::array::from_fn(|i| i as u8 ^ 0x5a)][c.free(3)];
        let i = c.free(N);
        let x = make(base);
        let mut h = i as u64;
        for d in 0..=255u8 {
            // alone, and together with an equal change in the neighbouring and the opposite byte
            for other in [None, Some((i + 1) % N), Some((i + N / 2) % N), Some(N - 1 - i)] {
                let mut m = base;
                m[i] ^= d;
                if let Some(j) = other {
                    if j != i {
                        m[j] ^= d;
                    }
                }
                let y = make(m);
                let want = m == base;
                if (x == y) != want || (y == x) != want || (x != y) == want {
                    return bad(format!("{name}: {} and {} are compared as {}", short(&base), short(&m), if want { "different" } else { "equal" }));
                }
                if y.clone() != y {
                    return bad(format!("{name}: a copy of {} is not equal to it", short(&m)));
                }
                h = h.rotate_left(3) ^ want as u64;
            }
        }
        c.evals += 1024;
        Ok(h ^ hash_bytes(&base))
    })
}
pub fn c31() -> Vec<Unit> {
    let mut u: Vec<Unit> = all_wires!(wire_pairs);
    u.push(json_pairs::<HardforkDevAddr>("HardforkDevAddr", 100_000));
    u.push(json_pairs::<HardforkTax>("HardforkTax", 100_000));
    u.push(json_pairs::<HardforkStorageProof>("HardforkStorageProof", 100_000));
    u.push(json_pairs::<HardforkOak>("HardforkOak", 200_000));
    u.push(json_pairs::<HardforkASIC>("HardforkASIC", 200_000));
    u.push(json_pairs::<HardforkFoundation>("HardforkFoundation", 200_000));
    u.push(json_pairs::<HardforkV2>("HardforkV2", 100_000));
    u.push(json_pairs::<Network>("Network", 400_000));
    u.push(json_pairs::<ChainState>("ChainState", 1_000_000));
    u.push(unit("pairs/PrivateKey", 3, b(100_000), private_keys));
    macro_rules! copies { ($($t:ty, $n:literal, $k:expr, $f:ident);* $(;)?) => { $(u.push(copy_unit::<$t>($n, $k, $f::<$t>));)* } }
    copies! {
        Hash256, "Hash256", 20_000, v2_canon;
        SiacoinOutputID, "SiacoinOutputID", 20_000, v2_canon;
        SiafundOutputID, "SiafundOutputID", 20_000, v2_canon;
        AttestationID, "AttestationID", 20_000, v2_canon;
        BlockID, "BlockID", 20_000, v2_canon;
        TransactionID, "TransactionID", 20_000, v2_canon;
        FileContractID, "FileContractID", 20_000, v2_canon;
        Address, "Address", 20_000, v2_canon;
        Leaf, "Leaf", 20_000, v2_canon;
        Specifier, "Specifier", 20_000, v2_canon;
        Work, "Work", 20_000, v2_canon;
        Currency, "Currency", 20_000, v2_canon;
        PublicKey, "PublicKey", 20_000, v2_canon;
        Signature, "Signature", 20_000, v2_canon;
        v1::UnlockKey, "UnlockKey", 50_000, v2_canon;
        v1::UnlockConditions, "UnlockConditions", 200_000, v2_canon;
        v1::CoveredFields, "CoveredFields", 200_000, v1_canon;
        v2::SpendPolicy, "SpendPolicy", 400_000, v2_canon;
    }
    u.push(bytes_unit::<Hash256, 32>("Hash256", Hash256::new));
    u.push(bytes_unit::<SiacoinOutputID, 32>("SiacoinOutputID", SiacoinOutputID::new));
    u.push(bytes_unit::<SiafundOutputID, 32>("SiafundOutputID", SiafundOutputID::new));
    u.push(bytes_unit::<AttestationID, 32>("AttestationID", AttestationID::new));
    u.push(bytes_unit::<BlockID, 32>("BlockID", BlockID::new));
    u.push(bytes_unit::<TransactionID, 32>("TransactionID", TransactionID::new));
    u.push(bytes_unit::<FileContractID, 32>("FileContractID", FileContractID::new));
    u.push(bytes_unit::<Address, 32>("Address", Address::new));
    u.push(bytes_unit::<PublicKey, 32>("PublicKey", PublicKey::new));
    u.push(bytes_unit::<Signature, 64>("Signature", Signature::new));
    u.push(bytes_unit::<Leaf, 64>("Leaf", Leaf::from));
    u.push(bytes_unit::<Specifier, 16>("Specifier", Specifier::new));
    u.push(bytes_unit::<PrivateKey, 64>("PrivateKey", PrivateKey::from));
    // the same bytes inside of other values
    u.push(bytes_unit::<Work, 32>("Work", |b| Work::from(&b)));
    u.push(bytes_unit::<v1::UnlockKey, 16>("UnlockKey/algorithm", |b| v1::UnlockKey { algorithm: Specifier::new(b), key: vec![1] }));
    u.push(bytes_unit::<v1::UnlockKey, 32>("UnlockKey/key", |b| v1::UnlockKey { algorithm: Specifier::from("ed25519"), key: b.to_vec() }));
    u.push(bytes_unit::<v1::UnlockConditions, 16>("UnlockConditions/algorithm", |b| {
        v1::UnlockConditions::new(3, vec![v1::UnlockKey { algorithm: Specifier::new(b), key: vec![1] }], 1)
    }));
    u.push(bytes_unit::<v2::SpendPolicy, 32>("SpendPolicy/public key", |b| v2::SpendPolicy::PublicKey(PublicKey::new(b))));
    u.push(bytes_unit::<v2::SpendPolicy, 32>("SpendPolicy/hash", |b| v2::SpendPolicy::Hash(Hash256::new(b))));
    u.push(bytes_unit::<v2::SpendPolicy, 32>("SpendPolicy/opaque", |b| v2::SpendPolicy::Opaque(Address::new(b))));
    u.push(bytes_unit::<v2::SpendPolicy, 8>("SpendPolicy/above", |b| v2::SpendPolicy::Above(u64::from_le_bytes(b))));
    u.push(bytes_unit::<v2::SpendPolicy, 4>("SpendPolicy/after", |b| {
        v2::SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(i32::from_le_bytes(b) as i64).unwrap())
    }));
    u.push(bytes_unit::<Currency, 16>("Currency", |b| Currency::new(u128::from_le_bytes(b))));
    u
}
pub const PROPS: &[Prop] = &[Prop {
    id: "C31",
    level: MC,
    profiles: C,
    units: c31,
    rule: "pairs: per type, two values that each differ from the same base value (or from neighbouring base values) in up to D places together, compared in both directions; bytes: fixed-size types, all 256 differences at every byte, alone and together with the same difference in another byte; copies: values within the deviation bound, copied, with the original overwritten and dropped; oracle: the independent reference encodings are the same",
    assumptions: &["the reference encodings of harness/src/model.rs determine a value's contents (checked by C02 and C06)", "times in UTC"],
}];
