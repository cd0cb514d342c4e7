//! C29: serde formats that are not human-readable.
use super::*;
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::v2::{SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use ciborium::Value as Cv;
use std::fmt::Debug;

pub trait Cs: G + Serialize + DeserializeOwned + PartialEq + Debug + 'static {}
impl<T: G + Serialize + DeserializeOwned + PartialEq + Debug + 'static> Cs for T {}

fn cbor<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    ciborium::into_writer(v, &mut o).map_err(|e| e.to_string())?;
    Ok(o)
}
fn uncbor<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    ciborium::from_reader(b).map_err(|e| e.to_string())
}
fn binc<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
    bincode::serialize(v).map_err(|e| e.to_string())
}
fn unbinc<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    use bincode::Options;
    bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 20).deserialize(b).map_err(|e| e.to_string())
}

#[derive(Clone, Copy, PartialEq)]
enum Form {
    /// an id or key: compact binary form, any content
    Id,
    /// any content, also in a format that does not describe itself
    Both,
    /// any content
    Any,
    /// content that has a JSON form
    Json,
    /// content that has a JSON form, also in a format that does not describe itself
    JsonBoth,
}
use Form::*;
impl Form {
    fn binc(self) -> bool {
        matches!(self, Id | Both | JsonBoth)
    }
    fn json(self) -> bool {
        matches!(self, Json | JsonBoth)
    }
}
fn no_panic<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|p| format!("{} panics: {p}", what()))
}

fn round<T: Cs>(v: &T, form: Form) -> Res {
    let a = match no_panic(|| format!("serializing {} to CBOR", dbg(v)), || cbor(v))? {
        Ok(a) => a,
        Err(e) => return bad(format!("serializing {} to CBOR fails: {e}", dbg(v))),
    };
    match no_panic(|| format!("reading CBOR {}", short(&a)), || uncbor::<T>(&a))? {
        Ok(g) if g == *v => {}
        g => return bad(format!("{} is written as CBOR {}, which is read as {}", dbg(v), short(&a), dbg(&g))),
    }
    let doc: Cv = ciborium::from_reader(&a[..]).map_err(|e| format!("{} is written as {}, which is not CBOR: {e}", dbg(v), short(&a)))?;
    match no_panic(|| format!("reading the CBOR document {doc:?}"), || doc.deserialized::<T>().map_err(|e| e.to_string()))? {
        Ok(g) if g == *v => {}
        g => return bad(format!("{} is written as the CBOR document {}, which is read as {}", dbg(v), dbg(&doc), dbg(&g))),
    }
    // maps are not ordered
    let mut rev = doc.clone();
    reverse(&mut rev);
    if rev != doc {
        match no_panic(|| format!("reading the CBOR document {rev:?}"), || rev.deserialized::<T>().map_err(|e| e.to_string()))? {
            Ok(g) if g == *v => {}
            g => return bad(format!("the CBOR document {} is read as {}, it denotes {}", dbg(&rev), dbg(&g), dbg(v))),
        }
    }
    if form.binc() {
        let b = match no_panic(|| format!("serializing {} with bincode", dbg(v)), || binc(v))? {
            Ok(b) => b,
            Err(e) => return bad(format!("serializing {} with bincode fails: {e}", dbg(v))),
        };
        let mut r = &b[..];
        match no_panic(|| format!("reading bincode {}", short(&b)), || bincode::deserialize_from::<_, T>(&mut r).map_err(|e| e.to_string()))? {
            Ok(g) if g == *v && r.is_empty() => {}
            g => return bad(format!("{} is written with bincode as {}, which is read as {} leaving {} bytes", dbg(v), short(&b), dbg(&g), r.len())),
        }
        return Ok(hash_bytes(&a) ^ hash_bytes(&b));
    }
    Ok(hash_bytes(&a))
}
fn reverse(v: &mut Cv) {
    match v {
        Cv::Array(a) => a.iter_mut().for_each(reverse),
        Cv::Map(m) => {
            m.reverse();
            m.iter_mut().for_each(|(_, x)| reverse(x));
        }
        _ => {}
    }
}
/// What was read must be a value like any other.
fn accepted<T: Cs>(from: &dyn Fn() -> String, g: &T) -> Result<(), String> {
    let a = no_panic(|| format!("{} is read as {}; serializing that", from(), dbg(g)), || cbor(g))?;
    match a {
        Ok(a) => match no_panic(|| format!("reading CBOR {}", short(&a)), || uncbor::<T>(&a))? {
            Ok(h) if h == *g => Ok(()),
            h => bad(format!("{} is read as {}, which is written as {}, which is read as {}", from(), dbg(g), short(&a), dbg(&h))),
        },
        Err(e) => bad(format!("{} is read as {}, which does not serialize: {e}", from(), dbg(g))),
    }
}
fn any_cbor<T: Cs>(form: Form, b: &[u8]) -> Res {
    let from = || format!("CBOR {}", short(b));
    let got = no_panic(|| format!("reading {}", from()), || uncbor::<T>(b))?;
    let doc = ciborium::from_reader::<Cv, _>(b);
    match got {
        Ok(g) => {
            accepted(&from, &g)?;
            // the library stops reading where a value is complete
            if let Ok(doc) = doc {
                exact(form, &doc, &g)?;
            }
            Ok(1)
        }
        Err(_) => Ok(2),
    }
}
/// Ids and keys have one compact form only.
fn exact<T: Cs>(form: Form, doc: &Cv, g: &T) -> Result<(), String> {
    if form == Id {
        let want = Cv::serialized(g).map_err(|e| e.to_string())?;
        // arrays of fixed length are read without looking for further elements
        fn starts(d: &Cv, w: &Cv) -> bool {
            let ints = |b: &[u8]| Cv::Array(b.iter().map(|x| Cv::Integer((*x).into())).collect());
            match (d, w) {
                (Cv::Bytes(d), w) => starts(&ints(d), w),
                (d, Cv::Bytes(w)) => starts(d, &ints(w)),
                (Cv::Array(d), Cv::Array(w)) => d.len() >= w.len() && d.iter().zip(w).all(|(d, w)| starts(d, w)),
                (Cv::Tag(_, d), w) => starts(d, w),
                (d, w) => d == w,
            }
        }
        if !starts(doc, &want) {
            return bad(format!("the CBOR document {} is malformed, and is read as {}", dbg(doc), dbg(g)));
        }
    }
    Ok(())
}
fn any_doc<T: Cs>(form: Form, doc: &Cv) -> Res {
    let got = no_panic(|| format!("reading the CBOR document {doc:?}"), || doc.deserialized::<T>().map_err(|e| e.to_string()))?;
    if let Ok(g) = &got {
        accepted(&|| format!("the CBOR document {}", dbg(doc)), g)?;
        exact(form, doc, g)?;
    }
    let mut b = vec![];
    ciborium::into_writer(doc, &mut b).map_err(|e| e.to_string())?;
    any_cbor::<T>(form, &b)?;
    Ok(got.is_ok() as u64)
}
fn substitutes(v: &Cv) -> Vec<Cv> {
    let t = |s: &str| Cv::Text(s.into());
    let mut o = vec![
        Cv::Null,
        Cv::Bool(true),
        Cv::Integer(0.into()),
        Cv::Integer((-1).into()),
        Cv::Integer(255.into()),
        Cv::Integer(256.into()),
        Cv::Integer(u64::MAX.into()),
        Cv::Float(1.5),
        t(""),
        t("ed25519:"),
        t(&"0".repeat(64)),
        Cv::Bytes(vec![]),
        Cv::Bytes(vec![1; 32]),
        Cv::Array(vec![]),
        Cv::Array(vec![Cv::Integer(1.into()); 32]),
        Cv::Array(vec![Cv::Integer(1.into()); 16]),
        Cv::Map(vec![]),
        Cv::Tag(1, Box::new(v.clone())),
        Cv::Array(vec![v.clone()]),
        Cv::Array(vec![v.clone(), v.clone()]),
    ];
    match v {
        Cv::Array(a) => {
            for n in [a.len() / 2, a.len().saturating_sub(1)] {
                o.push(Cv::Array(a[..n].to_vec()));
            }
            for x in [Cv::Null, Cv::Integer(0.into()), t("")] {
                let mut d = a.clone();
                d.push(x.clone());
                o.push(Cv::Array(d));
                let mut d = a.clone();
                d.insert(0, x);
                o.push(Cv::Array(d));
            }
            if !a.is_empty() {
                o.push(Cv::Array(a[1..].to_vec()));
                let mut d = a.clone();
                d.extend(a.clone());
                o.push(Cv::Array(d));
                let mut d = a.clone();
                d.reverse();
                o.push(Cv::Array(d));
            }
            if let Some(b) = a.iter().map(|x| x.as_integer().and_then(|i| u8::try_from(i).ok())).collect::<Option<Vec<u8>>>() {
                o.push(Cv::Bytes(b));
            }
        }
        Cv::Map(m) => {
            for i in 0..m.len() {
                let mut d = m.clone();
                d.remove(i);
                o.push(Cv::Map(d));
                let mut d = m.clone();
                d.push(m[i].clone());
                o.push(Cv::Map(d));
                let mut d = m.clone();
                d[i].0 = Cv::Integer(i.into());
                o.push(Cv::Map(d));
                let mut d = m.clone();
                d[i].0 = t("unknown");
                o.push(Cv::Map(d));
            }
            o.push(Cv::Array(m.iter().map(|(_, x)| x.clone()).collect()));
        }
        Cv::Text(s) => {
            o.push(Cv::Bytes(s.clone().into_bytes()));
            for i in 0..s.len().min(6) {
                if s.is_char_boundary(i) {
                    o.push(t(&s[..i]));
                    o.push(t(&s[i..]));
                }
            }
            o.push(t(&format!("{s}0")));
            o.push(t(&format!("{s}é")));
            o.push(t(&s.to_uppercase()));
        }
        Cv::Integer(_) => {
            o.push(Cv::Integer(i64::MIN.into()));
        }
        _ => {}
    }
    o
}
/// Calls f on the document with each node replaced by each of its substitutes.
fn mutants(doc: &Cv, part: usize, f: &mut dyn FnMut(&Cv) -> Result<(), String>) -> Result<(), String> {
    fn paths(v: &Cv, inner: bool, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
        o.push(at.clone());
        let kids: Vec<&Cv> = match v {
            Cv::Array(a) if !inner && a.iter().all(|x| x.is_integer()) => vec![],
            Cv::Array(a) if a.len() <= 4 => a.iter().collect(),
            Cv::Array(a) => vec![&a[0], &a[1], &a[a.len() - 1]],
            Cv::Map(m) => m.iter().map(|(_, x)| x).collect(),
            _ => vec![],
        };
        for (i, x) in kids.into_iter().enumerate() {
            at.push(i);
            paths(x, inner, at, o);
            at.pop();
        }
    }
    fn node<'a>(v: &'a mut Cv, p: &[usize]) -> &'a mut Cv {
        let Some((&k, r)) = p.split_first() else { return v };
        match v {
            Cv::Array(a) => {
                let n = a.len();
                node(&mut a[if n > 4 && k == 2 { n - 1 } else { k }], r)
            }
            Cv::Map(m) => node(&mut m[k].1, r),
            _ => unreachable!(),
        }
    }
    let mut ps = vec![];
    paths(doc, false, &mut vec![], &mut ps);
    if ps.len() < 30 || crate::thorough() {
        // bytes inside ids too
        ps.clear();
        paths(doc, true, &mut vec![], &mut ps);
    }
    let mut work = doc.clone();
    for p in ps.into_iter().skip(part).step_by(PARTS) {
        let orig = node(&mut work, &p).clone();
        for s in substitutes(&orig) {
            *node(&mut work, &p) = s;
            f(&work)?;
        }
        *node(&mut work, &p) = orig;
    }
    Ok(())
}
const BYTES: [u8; 24] = [0, 1, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1f, 0x20, 0x3b, 0x40, 0x5f, 0x60, 0x7f, 0x80, 0x9b, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xf6, 0xfb, 0xff];
/// A value's corruptions are explored in this many executions.
const PARTS: usize = 6;
fn corrupt<T: Cs>(v: &T, form: Form, long: bool, part: usize) -> Result<u64, String> {
    let mut n = 0;
    let a = cbor(v)?;
    for i in (part..a.len()).step_by(PARTS) {
        n += 1;
        if no_panic(|| format!("reading CBOR {}", short(&a[..i])), || uncbor::<T>(&a[..i]))?.is_ok() {
            return bad(format!("the first {i} of {} bytes of CBOR {} are accepted", a.len(), short(&a)));
        }
    }
    let step = if long { 1 + a.len() / 100 } else { 1 };
    let mut d = a.clone();
    for i in (0..a.len()).step_by(step).skip(part).step_by(PARTS) {
        for r in BYTES.into_iter().chain((0..8).map(|k| a[i] ^ 1 << k)) {
            d[i] = r;
            any_cbor::<T>(form, &d)?;
            n += 1;
        }
        d[i] = a[i];
    }
    let doc: Cv = ciborium::from_reader(&a[..]).map_err(|e| e.to_string())?;
    mutants(&doc, part, &mut |m| {
        n += 1;
        any_doc::<T>(form, m).map(|_| ())
    })?;
    if form.binc() {
        let a = binc(v)?;
        for i in (part..a.len()).step_by(PARTS) {
            n += 1;
            if no_panic(|| format!("reading bincode {}", short(&a[..i])), || unbinc::<T>(&a[..i]))?.is_ok() {
                return bad(format!("the first {i} of {} bytes written with bincode, {}, are accepted", a.len(), short(&a)));
            }
        }
        let mut d = a.clone();
        for i in (0..a.len()).step_by(step).skip(part).step_by(PARTS) {
            for r in BYTES.into_iter().chain((0..8).map(|k| a[i] ^ 1 << k)) {
                d[i] = r;
                n += 1;
                let from = || format!("bincode {}", short(&d));
                if let Ok(g) = no_panic(|| format!("reading {}", from()), || unbinc::<T>(&d))? {
                    let e = no_panic(|| format!("{} is read as {}; serializing that", from(), dbg(&g)), || binc(&g))??;
                    match no_panic(|| format!("reading bincode {}", short(&e)), || unbinc::<T>(&e))? {
                        Ok(h) if h == g => {}
                        h => return bad(format!("{} is read as {}, which is written as {}, which is read as {}", from(), dbg(&g), short(&e), dbg(&h))),
                    }
                    if form == Id && e[..] != d[..e.len().min(d.len())] {
                        return bad(format!("{} is read as {}, which is written as {}", from(), dbg(&g), short(&e)));
                    }
                }
            }
            d[i] = a[i];
        }
    }
    Ok(n)
}
fn units<T: Cs>(name: &str, form: Form) -> Vec<Unit> {
    vec![
        unit(format!("round trip/{name}"), 4, if form == Id { b(40_000) } else { b(20_000) }, move |c| {
            c.base();
            c.json = form.json();
            let v = T::g(c);
            c.sample(|| dbg(&v));
            round(&v, form)
        }),
        unit(format!("in place/{name}"), 1, b(10_000), move |c| {
            let swap = c.free(2) == 1;
            c.json = form.json();
            let (mut x, mut y) = pair(c, T::g);
            if swap {
                std::mem::swap(&mut x, &mut y);
            }
            let mut slot = Box::new(x);
            let a = round(&*slot, form)?;
            *slot = y;
            c.evals += 2;
            Ok(a.rotate_left(7) ^ round(&*slot, form).map_err(|m| format!("after another value in the same place: {m}"))?)
        }),
        unit(format!("malformed/{name}"), 2, b(200), move |c| {
            let part = c.free(PARTS);
            c.base();
            c.json = form.json();
            let v = T::g(c);
            c.evals += corrupt(&v, form, !crate::thorough(), part)?;
            Ok(hash_bytes(&cbor(&v)?))
        }),
    ]
}
macro_rules! all_types {
    ($f:ident) => {{
        use sia::types::{v1, v2};
        let mut v: Vec<Unit> = vec![];
        macro_rules! t { ($t:ty, $n:literal, $s:expr) => { v.extend($f::<$t>($n, $s)); } }
        t!(Hash256, "Hash256", Id);
        t!(SiacoinOutputID, "SiacoinOutputID", Id);
        t!(SiafundOutputID, "SiafundOutputID", Id);
        t!(AttestationID, "AttestationID", Id);
        t!(BlockID, "BlockID", Id);
        t!(TransactionID, "TransactionID", Id);
        t!(FileContractID, "FileContractID", Id);
        t!(Address, "Address", Both);
        t!(Leaf, "Leaf", Both);
        t!(PublicKey, "PublicKey", Both);
        t!(Signature, "Signature", Both);
        t!(v1::UnlockKey, "UnlockKey", Id);
        t!(Work, "Work", Both);
        t!(Currency, "Currency", Any);
        t!(ChainIndex, "ChainIndex", Both);
        t!(StateElement, "StateElement", Both);
        t!(SiacoinOutput, "SiacoinOutput", Any);
        t!(SiafundOutput, "SiafundOutput", Both);
        t!(ElementAccumulator, "ElementAccumulator", Both);
        t!(v1::UnlockConditions, "UnlockConditions", Both);
        t!(v1::SiacoinInput, "v1/SiacoinInput", Both);
        t!(v1::SiafundInput, "v1/SiafundInput", Both);
        t!(v1::FileContract, "v1/FileContract", Any);
        t!(v1::FileContractRevision, "v1/FileContractRevision", Any);
        t!(v1::StorageProof, "v1/StorageProof", Both);
        t!(v1::CoveredFields, "v1/CoveredFields", Any);
        t!(v1::TransactionSignature, "v1/TransactionSignature", Any);
        t!(v1::Transaction, "v1/Transaction", Any);
        t!(Block, "Block", Json);
        t!(SpendPolicy, "SpendPolicy", Json);
        t!(SatisfiedPolicy, "SatisfiedPolicy", Json);
        t!(v2::Attestation, "v2/Attestation", Both);
        t!(v2::FileContract, "v2/FileContract", Any);
        t!(v2::SiacoinElement, "v2/SiacoinElement", Any);
        t!(v2::SiafundElement, "v2/SiafundElement", Any);
        t!(v2::FileContractElement, "v2/FileContractElement", Any);
        t!(v2::ChainIndexElement, "v2/ChainIndexElement", Both);
        t!(v2::SiacoinInput, "v2/SiacoinInput", Json);
        t!(v2::SiafundInput, "v2/SiafundInput", Json);
        t!(v2::FileContractRevision, "v2/FileContractRevision", Any);
        t!(v2::FileContractRenewal, "v2/FileContractRenewal", Any);
        t!(v2::StorageProof, "v2/StorageProof", Both);
        t!(v2::FileContractResolution, "v2/FileContractResolution", Json);
        t!(v2::Transaction, "v2/Transaction", Json);
        t!(HardforkDevAddr, "HardforkDevAddr", Both);
        t!(HardforkTax, "HardforkTax", Both);
        t!(HardforkStorageProof, "HardforkStorageProof", Both);
        t!(HardforkFoundation, "HardforkFoundation", Both);
        t!(HardforkV2, "HardforkV2", Both);
        t!(HardforkOak, "HardforkOak", JsonBoth);
        t!(HardforkASIC, "HardforkASIC", Both);
        t!(Network, "Network", Json);
        t!(State, "State", Json);
        t!(ChainState, "ChainState", Json);
        v
    }};
}
pub fn c29() -> Vec<Unit> {
    let mut v: Vec<Unit> = all_types!(units);
    v.push(unit("policy kinds", 1, b(2_000), |c| {
        c.base();
        c.json = true;
        let nest = c.free(4);
        #[allow(deprecated)]
        let mut p = match c.free(7) {
            0 => SpendPolicy::Above(G::g(c)),
            1 => SpendPolicy::After(G::g(c)),
            2 => SpendPolicy::PublicKey(G::g(c)),
            3 => SpendPolicy::Hash(G::g(c)),
            4 => SpendPolicy::Opaque(G::g(c)),
            5 => SpendPolicy::UnlockConditions(G::g(c)),
            _ => SpendPolicy::Threshold(2, vec![SpendPolicy::Above(1), SpendPolicy::Hash(G::g(c)), SpendPolicy::Threshold(0, vec![])]),
        };
        for _ in 0..nest {
            p = SpendPolicy::Threshold(1, vec![p, SpendPolicy::Above(3)]);
        }
        round(&p, Json)?;
        round(&SatisfiedPolicy { policy: p, signatures: vec![Signature::new([3; 64])], preimages: vec![Hash256::new([4; 32])] }, Json)
    }));
    // whole numbers as the integer type of every width, and the other primitive values
    v.push(unit("primitives", 0, u64::MAX, |c| {
        use serde::de::value::Error as E;
        use serde::de::IntoDeserializer;
        let mut grid: Vec<i128> = vec![0, 1, 2, 10, 255, 256];
        for k in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 65, 96, 126] {
            grid.extend([(1i128 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        for k in [19u32, 20, 24, 27, 38] {
            grid.extend([10i128.pow(k) - 1, 10i128.pow(k), 10i128.pow(k) + 1]);
        }
        let neg: Vec<i128> = grid.iter().map(|x| -x).collect();
        grid.extend(neg);
        grid.extend([i128::MAX, i128::MIN]);
        let x = grid[c.free(grid.len())];
        // beyond the signed range
        let top = (x as u128) ^ (1 << 127);
        let mut h = 0u64;
        fn number<'de, D: IntoDeserializer<'de, E>>(kind: &str, shown: String, want: Option<u128>, d: D) -> Result<u64, String> {
            use serde::Deserialize;
            let got = no_panic(|| format!("reading {shown} as a currency"), || Currency::deserialize(d.into_deserializer()).map_err(|e: E| e.to_string()))?;
            match (&got, want) {
                (Ok(g), Some(w)) if cur_u128(g) == w => Ok(1),
                (Err(_), None) => Ok(2),
                _ => bad(format!("the {kind} {shown} is read as the currency {got:?}, expected {want:?}")),
            }
        }
        macro_rules! number { ($($t:ident),*) => { $(
            if let Ok(y) = $t::try_from(x) {
                h = h * 3 + number(stringify!($t), y.to_string(), u128::try_from(y).ok(), y)?;
            }
            c.evals += 1;
        )* } }
        number!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
        h = h * 3 + number("u128", top.to_string(), Some(top), top)?;
        // nothing but a whole number or a text is an amount
        h = h * 3 + number("f64", format!("{x}.0"), None, x as f64)?;
        h = h * 3 + number("bool", (x > 0).to_string(), None, x > 0)?;
        h = h * 3 + number("unit", "()".into(), None, ())?;
        h = h * 3 + number("text", x.to_string(), u128::try_from(x).ok(), x.to_string())?;
        h = h * 3 + number("bytes", x.to_string(), None, serde::de::value::BytesDeserializer::<E>::new(&x.to_le_bytes()))?;
        // a number is no id, key, address, signature or work
        macro_rules! no { ($($t:ty),*) => { $({
            let got = no_panic(|| format!("reading {x} as {}", stringify!($t)), || <$t as serde::Deserialize>::deserialize(IntoDeserializer::<E>::into_deserializer(x)).map_err(|e| e.to_string()))?;
            if let Ok(g) = got {
                return bad(format!("the number {x} is read as the {} {g:?}", stringify!($t)));
            }
        })* } }
        no!(Hash256, Address, TransactionID, SiacoinOutputID, PublicKey, Signature, Specifier, v1::UnlockKey, SpendPolicy, ChainIndex, Leaf);
        c.evals += 16;
        Ok(h ^ hash_bytes(&x.to_le_bytes()))
    }));
    v
}
pub const PROPS: &[Prop] = &[Prop {
    id: "C29",
    level: MC,
    profiles: C,
    units: c29,
    rule: "for each type: every value with at most `deviation_bound` deviations from three base values is written as CBOR (and with bincode, which does not describe its data, where the type does not need a description) and read back, from bytes and from a document, also with the maps reversed; every truncation must be rejected, every byte replaced by each of 32 values and every node of the CBOR document replaced by each substitute must be rejected or read as a value that round-trips, and for ids and unlock keys only the one compact form may be accepted; boundary numbers given to currencies (exact or rejected) and ids (rejected) as every integer type and other primitive values",
    assumptions: &["currencies (and what contains them), policies and types that omit empty lists need a self-describing format"],
}];
