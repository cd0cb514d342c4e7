//! C06, C07: the JSON forms.
use super::*;
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::v2::{SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use std::fmt::Debug;

pub trait Js: G + J + DJ + Serialize + DeserializeOwned + PartialEq + Debug + 'static {}
impl<T: G + J + DJ + Serialize + DeserializeOwned + PartialEq + Debug + 'static> Js for T {}

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Prim,
    Small,
    Big,
}
macro_rules! all_json {
    ($f:ident) => {{
        use sia::types::{v1, v2};
        use Size::*;
        let mut v: Vec<Unit> = vec![];
        macro_rules! t { ($t:ty, $n:literal, $s:expr) => { v.extend($f::<$t>($n, $s)); } }
        t!(Hash256, "Hash256", Prim);
        t!(SiacoinOutputID, "SiacoinOutputID", Prim);
        t!(SiafundOutputID, "SiafundOutputID", Prim);
        t!(AttestationID, "AttestationID", Prim);
        t!(BlockID, "BlockID", Prim);
        t!(TransactionID, "TransactionID", Prim);
        t!(FileContractID, "FileContractID", Prim);
        t!(Address, "Address", Prim);
        t!(Leaf, "Leaf", Prim);
        t!(PublicKey, "PublicKey", Prim);
        t!(Signature, "Signature", Prim);
        t!(v1::UnlockKey, "UnlockKey", Prim);
        t!(Work, "Work", Prim);
        t!(Currency, "Currency", Prim);
        t!(ChainIndex, "ChainIndex", Small);
        t!(StateElement, "StateElement", Small);
        t!(SiacoinOutput, "SiacoinOutput", Small);
        t!(SiafundOutput, "SiafundOutput", Small);
        t!(ElementAccumulator, "ElementAccumulator", Small);
        t!(v1::UnlockConditions, "UnlockConditions", Small);
        t!(v1::SiacoinInput, "v1/SiacoinInput", Small);
        t!(v1::SiafundInput, "v1/SiafundInput", Small);
        t!(v1::FileContract, "v1/FileContract", Small);
        t!(v1::FileContractRevision, "v1/FileContractRevision", Small);
        t!(v1::StorageProof, "v1/StorageProof", Small);
        t!(v1::CoveredFields, "v1/CoveredFields", Small);
        t!(v1::TransactionSignature, "v1/TransactionSignature", Small);
        t!(v1::Transaction, "v1/Transaction", Big);
        t!(Block, "Block", Big);
        t!(SpendPolicy, "SpendPolicy", Big);
        t!(SatisfiedPolicy, "SatisfiedPolicy", Big);
        t!(v2::Attestation, "v2/Attestation", Small);
        t!(v2::FileContract, "v2/FileContract", Small);
        t!(v2::SiacoinElement, "v2/SiacoinElement", Small);
        t!(v2::SiafundElement, "v2/SiafundElement", Small);
        t!(v2::FileContractElement, "v2/FileContractElement", Small);
        t!(v2::ChainIndexElement, "v2/ChainIndexElement", Small);
        t!(v2::SiacoinInput, "v2/SiacoinInput", Big);
        t!(v2::SiafundInput, "v2/SiafundInput", Big);
        t!(v2::FileContractRevision, "v2/FileContractRevision", Small);
        t!(v2::FileContractRenewal, "v2/FileContractRenewal", Small);
        t!(v2::StorageProof, "v2/StorageProof", Small);
        t!(v2::FileContractResolution, "v2/FileContractResolution", Big);
        t!(v2::Transaction, "v2/Transaction", Big);
        t!(HardforkDevAddr, "HardforkDevAddr", Small);
        t!(HardforkTax, "HardforkTax", Prim);
        t!(HardforkStorageProof, "HardforkStorageProof", Prim);
        t!(HardforkOak, "HardforkOak", Small);
        t!(HardforkASIC, "HardforkASIC", Small);
        t!(HardforkFoundation, "HardforkFoundation", Small);
        t!(HardforkV2, "HardforkV2", Prim);
        t!(Network, "Network", Big);
        t!(State, "State", Big);
        t!(ChainState, "ChainState", Big);
        v
    }};
}

/// Writes a document with every object's keys rotated by `rot` (then reversed), optionally with every
/// character of every string escaped, optionally with white space everywhere.
fn emit(v: &Value, rot: usize, rev: bool, esc: bool, ws: bool, o: &mut String) {
    fn text(s: &str, esc: bool, o: &mut String) {
        if !esc {
            o.push_str(&Value::String(s.to_string()).to_string());
            return;
        }
        o.push('"');
        for u in s.encode_utf16() {
            o.push_str(&format!("\\u{u:04x}"));
        }
        o.push('"');
    }
    let w = |o: &mut String| {
        if ws {
            o.push_str(" \n\t\r")
        }
    };
    w(o);
    match v {
        Value::String(s) => text(s, esc, o),
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                emit(x, rot, rev, esc, ws, o);
            }
            w(o);
            o.push(']');
        }
        Value::Object(m) => {
            o.push('{');
            let mut ks: Vec<&String> = m.keys().collect();
            if !ks.is_empty() {
                let n = ks.len();
                ks.rotate_left(rot % n);
            }
            if rev {
                ks.reverse();
            }
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                w(o);
                text(k, esc, o);
                w(o);
                o.push(':');
                emit(&m[*k], rot, rev, esc, ws, o);
            }
            w(o);
            o.push('}');
        }
        x => o.push_str(&x.to_string()),
    }
    w(o);
}

/// Duplicate keys are invisible in a parsed document.
struct Dups(bool);
impl<'de> serde::Deserialize<'de> for Dups {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Dups;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, _: bool) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_u64<E>(self, _: u64) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_i64<E>(self, _: i64) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_f64<E>(self, _: f64) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_str<E>(self, _: &str) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_unit<E>(self) -> Result<Dups, E> {
                Ok(Dups(false))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Dups, A::Error> {
                let mut d = false;
                while let Some(x) = a.next_element::<Dups>()? {
                    d |= x.0;
                }
                Ok(Dups(d))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Dups, A::Error> {
                let mut d = false;
                let mut seen = std::collections::HashSet::new();
                while let Some((k, x)) = a.next_entry::<String, Dups>()? {
                    d |= x.0 | !seen.insert(k);
                }
                Ok(Dups(d))
            }
        }
        d.deserialize_any(V)
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 900 {
        return s.to_string();
    }
    let mut k = 900;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

fn parsed<T: Js>(how: &str, text: &str, want: &T, got: Result<T, serde_json::Error>) -> Result<(), String> {
    match got {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => bad(format!("{how}: {} is parsed as {}, it denotes {}", clip(text), dbg(&g), dbg(want))),
        Err(e) => bad(format!("{how}: parsing {} fails: {e}", clip(text))),
    }
}

fn shape<T: Js>(c: &mut Ctx, v: &T, full: bool) -> Result<u64, String> {
    let want = v.j();
    let doc = match serde_json::to_value(v) {
        Ok(d) => d,
        Err(e) => return bad(format!("serializing {} fails: {e}", dbg(v))),
    };
    if doc != want {
        return bad(format!("{} serializes to {}, the API shape is {}", dbg(v), clip(&doc.to_string()), clip(&want.to_string())));
    }
    let text = match serde_json::to_string(v) {
        Ok(d) => d,
        Err(e) => return bad(format!("serializing {} to text fails: {e}", dbg(v))),
    };
    c.sample(|| text.clone());
    match (serde_json::from_str::<Value>(&text), serde_json::from_str::<Dups>(&text)) {
        (Ok(d), Ok(Dups(false))) if d == want => {}
        (d, _) => return bad(format!("{} serializes to the text {}, which reads as {d:?} (or repeats keys), the API shape is {}", dbg(v), clip(&text), clip(&want.to_string()))),
    }
    parsed("from_str", &text, v, serde_json::from_str(&text))?;
    parsed("from_slice", &text, v, serde_json::from_slice(text.as_bytes()))?;
    parsed("from_reader", &text, v, serde_json::from_reader(text.as_bytes()))?;
    parsed("from_value", &text, v, serde_json::from_value(want.clone()))?;
    c.evals += 6;
    let rots = if full { 20 } else { 2 };
    for rot in 0..rots {
        for rev in [false, true] {
            let mut t = String::new();
            emit(&want, rot, rev, false, rot % 2 == 1, &mut t);
            parsed("other key order", &t, v, serde_json::from_str(&t))?;
            c.evals += 1;
        }
    }
    let mut t = String::new();
    emit(&want, 1, true, true, false, &mut t);
    parsed("escaped strings", &t, v, serde_json::from_str(&t))?;
    NUMERIC.set(true);
    let num = v.j();
    NUMERIC.set(false);
    if num != want {
        let t = num.to_string();
        parsed("currencies as numbers", &t, v, serde_json::from_str(&t))?;
        parsed("currencies as numbers (value)", &t, v, serde_json::from_value(num))?;
        c.evals += 2;
    }
    Ok(hash_bytes(text.as_bytes()))
}
fn c06_unit<T: Js>(name: &str, s: Size) -> Vec<Unit> {
    let (d, n) = match s {
        Size::Prim => (4, b(100_000)),
        Size::Small => (3, b(24_000)),
        Size::Big => (3, b(30_000)),
    };
    let mut v = vec![
        unit(name, d, n, |c| {
            c.base();
            c.json = true;
            c.frac = true;
            let v = T::g(c);
            shape(c, &v, false)
        }),
        unit(format!("orders/{name}"), 1, b(2_000), |c| {
            c.base();
            c.json = true;
            c.frac = true;
            let v = T::g(c);
            shape(c, &v, true)
        }),
    ];
    let gen = |c: &mut Ctx| {
        c.json = true;
            c.frac = true;
        T::g(c)
    };
    let cap = if crate::thorough() { 4 << 20 } else { 60 << 10 };
    let cs = long_cases(gen, |v| v.j().to_string().len(), cap);
    if !cs.is_empty() {
        v.push(unit(format!("long/{name}"), 0, u64::MAX, move |c| {
            let v = long_choice(c, gen, &cs);
            shape(c, &v, false)
        }));
    }
    v.push(unit(format!("in place/{name}"), 2, b(20_000), move |c| {
        c.json = true;
            c.frac = true;
        let ops: [Op<T>; 2] = [
            ("to_value", |v| {
                let want = v.j();
                match serde_json::to_value(v) {
                    Ok(d) if d == want => Ok(hash_bytes(d.to_string().as_bytes())),
                    d => bad(format!("{} serializes to {d:?}, the API shape is {}", dbg(v), clip(&want.to_string()))),
                }
            }),
            ("from_str", |v| {
                let mut text = String::with_capacity(4096);
                text.push_str(&v.j().to_string());
                parsed("from_str", &text, v, serde_json::from_str(&text))?;
                Ok(1)
            }),
        ];
        in_place(c, gen, &[replace], &ops)
    }));
    v
}
pub fn c06() -> Vec<Unit> {
    let mut v: Vec<Unit> = all_json!(c06_unit);
    v.push(unit("ContractResolution", 2, b(100_000), |c| {
        c.base();
        c.json = true;
            c.frac = true;
        let v = v2::ContractResolution::g(c);
        let t = match serde_json::to_string(&v) {
            Ok(t) => t,
            Err(e) => return bad(format!("serializing {} fails: {e}", dbg(&v))),
        };
        match serde_json::from_str::<v2::ContractResolution>(&t) {
            Ok(g) if g == v => Ok(hash_bytes(t.as_bytes())),
            g => bad(format!("{} is parsed as {}, it came from {}", clip(&t), dbg(&g), dbg(&v))),
        }
    }));
    v.push(unit("nested policies", 0, 1 << 20, |c| {
        // thresholds around each kind of policy, up to 40 levels
        let depth = c.free(41);
        let kind = c.free(6);
        let width = c.free(3);
        #[allow(deprecated)]
        let leaf = |i: usize| match (kind + i) % 6 {
            0 => SpendPolicy::Above(u64::MAX - i as u64),
            1 => SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(1_700_000_000 + i as i64).unwrap()),
            2 => SpendPolicy::PublicKey(PublicKey::new([i as u8; 32])),
            3 => SpendPolicy::Hash(Hash256::new([i as u8; 32])),
            4 => SpendPolicy::Opaque(Address::new([i as u8; 32])),
            _ => SpendPolicy::UnlockConditions(v1::UnlockConditions {
                timelock: i as u64,
                public_keys: vec![v1::UnlockKey { algorithm: spec16(b"ed25519"), key: vec![i as u8; 32] }],
                signatures_required: 1,
            }),
        };
        let mut p = leaf(0);
        for i in 1..=depth {
            let mut of = vec![p];
            for k in 0..width {
                of.insert(k % 2, leaf(i + k));
            }
            p = SpendPolicy::Threshold(i as u8, of);
        }
        shape(c, &p, false)?;
        let s = SatisfiedPolicy {
            policy: p,
            signatures: vec![],
            preimages: vec![Hash256::new([9; 32])],
        };
        shape(c, &s, false)
    }));
    v
}

// ------------------------------------------------------------------ C07

fn outcome<T: Js>(text: &[u8]) -> Result<Result<T, ()>, String> {
    guarded(|| serde_json::from_slice::<T>(text).map_err(|_| ())).map_err(|p| format!("parsing {} panics: {p}", clip(&String::from_utf8_lossy(text))))
}
fn fixpoint<T: Js>(g: &T, text: &[u8]) -> Result<(), String> {
    let from = || clip(&String::from_utf8_lossy(text));
    match guarded(|| serde_json::to_string(g)).map_err(|p| format!("serializing what {} was parsed as panics: {p}", from()))? {
        Ok(t) => match serde_json::from_str::<T>(&t) {
            Ok(h) if h == *g => Ok(()),
            h => bad(format!("{} is parsed as {}, which serializes to {}, which is parsed as {}", from(), dbg(g), clip(&t), dbg(&h))),
        },
        Err(e) => bad(format!("{} is parsed as {}, which does not serialize: {e}", from(), dbg(g))),
    }
}
fn verdict<T: Js>(doc: &Value, dups: bool, got: &Result<T, ()>, text: &[u8], how: &str) -> Result<u64, String> {
    let mut x = JCtx::default();
    let want = T::dj(doc, &mut x);
    let from = || clip(&String::from_utf8_lossy(text));
    match (&want, got) {
        (Ok(w), Ok(g)) if dups || w == g => Ok(0),
        (Ok(_), Err(())) if dups || x.open => Ok(1),
        (Err(Bad::Reject), Err(())) => Ok(2),
        (Err(Bad::Open), _) => Ok(3),
        (Ok(w), Ok(g)) => bad(format!("{how}: {} is parsed as {}, it denotes {}", from(), dbg(g), dbg(w))),
        (Ok(w), Err(())) => bad(format!("{how}: {} is rejected, it denotes {}", from(), dbg(w))),
        (Err(Bad::Reject), Ok(g)) => bad(format!("{how}: {} is accepted as {}, it is malformed", from(), dbg(g))),
    }
}
fn judge_text<T: Js>(text: &[u8]) -> Result<u64, String> {
    let got = outcome::<T>(text)?;
    if let Ok(g) = &got {
        fixpoint(g, text)?;
    }
    match serde_json::from_slice::<Value>(text) {
        Err(_) => match got {
            Err(()) => Ok(4),
            Ok(g) => bad(format!("{} is not JSON and is accepted as {}", clip(&String::from_utf8_lossy(text)), dbg(&g))),
        },
        Ok(doc) => {
            let dups = serde_json::from_slice::<Dups>(text).map_or(true, |d| d.0);
            verdict(&doc, dups, &got, text, "from_slice")
        }
    }
}
fn judge_doc<T: Js>(doc: &Value) -> Result<u64, String> {
    let text = doc.to_string();
    let r = judge_text::<T>(text.as_bytes())?;
    let got = guarded(|| serde_json::from_value::<T>(doc.clone()).map_err(|_| ())).map_err(|p| format!("from_value of {} panics: {p}", clip(&text)))?;
    verdict(doc, false, &got, text.as_bytes(), "from_value")?;
    Ok(r)
}

/// `full`: all substitutes, otherwise one per JSON type.
fn substitutes(v: &Value, full: bool, long: bool) -> Vec<Value> {
    if !full {
        return vec![Value::Null, json!(true), json!(-1), json!(7), json!(""), json!("zz"), json!([]), json!({})];
    }
    let mut o = vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(1),
        json!(-1),
        json!(1.5),
        json!(1.0),
        json!(255),
        json!(256),
        json!(u32::MAX as u64 + 1),
        json!(i64::MAX as u64),
        json!(i64::MAX as u64 + 1),
        json!(253402300799u64),
        json!(253402300800u64),
        json!(u64::MAX),
        json!(1e30),
        json!(""),
        json!("0"),
        json!("1"),
        json!("-1"),
        json!("ed25519:"),
        json!("00"),
        json!("above"),
        json!("renewal"),
        json!("storageProof"),
        json!("expiration"),
        json!([]),
        json!([null]),
        json!([0]),
        json!({}),
        json!([v]),
        json!({"x": v}),
        json!({"type": "above", "policy": 0}),
        json!({"type": "nope", "policy": 0}),
    ];
    match v {
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            let n = cs.len();
            let mk = |c: &[char]| Value::String(c.iter().collect());
            if n > 0 {
                o.push(mk(&cs[1..]));
                o.push(mk(&cs[..n - 1]));
                o.push(mk(&cs[..n / 2]));
                let at: Vec<usize> = if long { (0..n).step_by(23).chain([n - 1]).collect() } else if n <= 80 { (0..n).collect() } else { (0..n).step_by(9).chain([n - 1]).collect() };
                // characters of several bytes, with the length in bytes kept
                for (w, ch) in [(2, 'é'), (3, '€'), (4, '\u{1d7d8}')] {
                    for &i in &at {
                        if i + w <= n && (w == 2 || i % 4 == 0) && cs[i..i + w].iter().all(char::is_ascii) {
                            let mut d = cs.clone();
                            d.splice(i..i + w, [ch]);
                            o.push(mk(&d));
                        }
                    }
                }
                for i in at {
                    for r in ['0', '1', 'f', 'F', 'g', ' ', ':', '-', '=', '.', 'T', 'z', '\0', 'é'] {
                        if i % 4 == 0 || i + 3 > n || r == 'g' || r == '1' {
                            let mut d = cs.clone();
                            d[i] = r;
                            o.push(mk(&d));
                        }
                    }
                }
                for k in [1, n / 2] {
                    let mut d = cs.clone();
                    d.remove(k.min(n - 1));
                    o.push(mk(&d));
                    if !d.is_empty() {
                        d.remove(0);
                        o.push(mk(&d));
                    }
                }
            }
            for t in [" ", "0", "00", "=", "==", "A", ":", "g", "\0", "é", "Z", "000000000000000000000000000000000000000000000000000000000000000000000000000000000", ".5", " SC", "SC", "0x", "0X", "+", "_", ",", "\n", "\u{feff}", "sia:", "\"", "null"] {
                o.push(json!(format!("{s}{t}")));
                o.push(json!(format!("{t}{s}")));
            }
            o.push(json!(s.to_uppercase()));
            for (i, t) in [(1, "_"), (n / 2, "_"), (n / 2, ","), (n / 2, " "), (n.saturating_sub(3), ","), (n / 2, "\0"), (n / 2, "\n")] {
                let mut d = cs.clone();
                d.insert(i.min(n), t.chars().next().unwrap());
                o.push(mk(&d));
            }
            o.push(json!(format!("h:{s}")));
            o.push(json!(s.split_once(':').map_or(format!("0x{s}"), |(k, v)| format!("{k}:0x{v}"))));
            o.push(json!(format!("ed25519:{s}")));
            o.push(json!(s.strip_prefix("ed25519:").unwrap_or("x")));
            o.push(json!(s.replace("ed25519", "Ed25519")));
            o.push(json!(s.replace('Z', "+00:00")));
            o.push(json!(s.replace('Z', ".123456789Z")));
            o.push(json!(s.replace('Z', "")));
            o.push(json!(s.replace('T', " ")));
            o.push(json!(format!("{s}{s}")));
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                o.push(json!(u.to_string()));
                o.push(json!(u.wrapping_add(1)));
                o.push(json!(u ^ 1 << 63));
                o.push(json!(-(u as f64) - 0.5));
            }
        }
        Value::Bool(x) => {
            o.push(json!(!x));
            o.push(json!(x.to_string()));
        }
        Value::Array(a) => {
            if !a.is_empty() {
                let mut d = a.clone();
                d.pop();
                o.push(Value::Array(d));
                let mut d = a.clone();
                d.remove(0);
                o.push(Value::Array(d));
                let mut d = a.clone();
                d.push(a[0].clone());
                o.push(Value::Array(d));
                let mut d = a.clone();
                d.reverse();
                o.push(Value::Array(d));
                for n in if a[0].to_string().len() < 200 { &[12, 255, 256, 300][..] } else if a.len() < 12 && a[0].to_string().len() < 2000 { &[12][..] } else { &[][..] }.iter().copied() {
                    o.push(Value::Array(vec![a[0].clone(); n]));
                }
            }
            for x in [Value::Null, json!(0), json!(""), json!([]), json!({})] {
                let mut d = a.clone();
                d.push(x.clone());
                o.push(Value::Array(d));
                let mut d = a.clone();
                d.insert(0, x);
                o.push(Value::Array(d));
            }
            o.push(json!({"0": a}));
        }
        Value::Object(m) => {
            for k in m.keys() {
                let mut d = m.clone();
                let x = d.remove(k).unwrap();
                o.push(Value::Object(d.clone()));
                for other in [k.to_uppercase(), k.to_lowercase(), format!("{k} "), format!("_{k}"), snake(k)] {
                    if other != *k {
                        let mut e = d.clone();
                        e.insert(other, x.clone());
                        o.push(Value::Object(e));
                    }
                }
            }
            // any pair of keys exchanges its values
            let ks: Vec<&String> = m.keys().collect();
            for i in 0..ks.len() {
                for j in i + 1..ks.len() {
                    let mut d = m.clone();
                    d.insert(ks[i].clone(), m[ks[j]].clone());
                    d.insert(ks[j].clone(), m[ks[i]].clone());
                    o.push(Value::Object(d));
                }
            }
            let mut d = m.clone();
            d.insert("unknown".into(), json!({"a": [1, "x"]}));
            o.push(Value::Object(d));
            o.push(Value::Array(m.values().cloned().collect()));
        }
        Value::Null => {}
    }
    o
}
fn snake(k: &str) -> String {
    let mut o = String::new();
    for c in k.chars() {
        if c.is_ascii_uppercase() {
            o.push('_');
            o.push(c.to_ascii_lowercase());
        } else {
            o.push(c);
        }
    }
    o
}
/// Calls f on the document with each node replaced by each of its substitutes; nodes that differ from an earlier
/// one only in list positions get the short list of substitutes.
fn mutants(doc: &Value, part: usize, f: &mut dyn FnMut(&Value) -> Result<(), String>) -> Result<(), String> {
    fn paths(v: &Value, at: &mut Vec<String>, o: &mut Vec<Vec<String>>) {
        o.push(at.clone());
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    at.push(i.to_string());
                    paths(x, at, o);
                    at.pop();
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    at.push(k.clone());
                    paths(x, at, o);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    fn node<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
        match p.split_first() {
            None => v,
            Some((k, r)) => match v {
                Value::Array(a) => node(&mut a[k.parse::<usize>().unwrap()], r),
                Value::Object(m) => node(m.get_mut(k).unwrap(), r),
                _ => unreachable!(),
            },
        }
    }
    let mut ps = vec![];
    paths(doc, &mut vec![], &mut ps);
    let mut work = doc.clone();
    let mut seen = std::collections::HashSet::new();
    // in long documents, nodes that differ only in list positions count as one
    let long = ps.len() > 60 && !crate::thorough();
    for (i, p) in ps.into_iter().enumerate() {
        let pattern: Vec<&str> = p.iter().map(|k| if k.as_bytes()[0].is_ascii_digit() { "#" } else { k.as_str() }).collect();
        let orig = node(&mut work, &p).clone();
        let kind = match &orig {
            Value::Object(m) => m.get("type").map_or("", |t| t.as_str().unwrap_or("")).to_string(),
            _ => String::new(),
        };
        let full = seen.insert(pattern.join("/") + &kind) || crate::thorough();
        if long && !full {
            continue;
        }
        for (k, s) in substitutes(&orig, full, long).into_iter().enumerate() {
            if (i + k) % PARTS == part {
                *node(&mut work, &p) = s;
                f(&work)?;
            }
        }
        *node(&mut work, &p) = orig;
    }
    Ok(())
}

/// Every truncation, every deletion, every byte replaced by structural, numeric and invalid bytes.
fn corrupt_text<T: Js>(text: &[u8]) -> Result<u64, String> {
    let mut n = 0;
    let mut go = |t: &[u8]| -> Result<(), String> {
        n += 1;
        judge_text::<T>(t)?;
        Ok(())
    };
    // every truncation, every deletion, every byte replaced by structural, numeric and invalid bytes
    for i in 0..text.len() {
        go(&text[..i])?;
    }
    const R: [u8; 22] = [b'"', b'{', b'}', b'[', b']', b',', b':', b'0', b'9', b'-', b'+', b'.', b'e', b'\\', b'\n', b' ', b'a', b'u', 0, 0x1f, 0x80, 0xff];
    let step = if crate::thorough() { 1 } else { 1 + text.len() / 250 };
    let mut t = text.to_vec();
    for i in (0..text.len()).step_by(step) {
        for r in R {
            t[i] = r;
            go(&t)?;
        }
        t[i] = text[i];
        let mut d = text.to_vec();
        d.remove(i);
        go(&d)?;
        for r in [b'"', b',', b'0', b'}', b'\\'] {
            let mut d = text.to_vec();
            d.insert(i, r);
            go(&d)?;
        }
    }
    for tail in ["", " ", "\n", "{}", "0", "x", "null", ",", "\0"] {
        let mut t = text.to_vec();
        t.extend_from_slice(tail.as_bytes());
        go(&t)?;
        let mut t = tail.as_bytes().to_vec();
        t.extend_from_slice(text);
        go(&t)?;
    }
    Ok(n)
}
/// A document's mutants are explored in this many executions.
const PARTS: usize = 16;
fn c07_unit<T: Js>(name: &str, s: Size) -> Vec<Unit> {
    let n = match s {
        Size::Prim => b(4_000),
        Size::Small => b(600),
        Size::Big => b(200),
    };
    vec![
        unit(format!("nodes/{name}"), 2, n, |c| {
            c.base();
            c.json = true;
            c.frac = true;
            let part = c.free(PARTS);
            let doc = T::g(c).j();
            c.sample(|| doc.to_string());
            let mut n = 0;
            let mut h = 0u64;
            judge_doc::<T>(&doc)?;
            mutants(&doc, part, &mut |d| {
                n += 1;
                h = h.wrapping_mul(31).wrapping_add(judge_doc::<T>(d)?);
                Ok(())
            })?;
            c.evals += n;
            Ok(h ^ hash_bytes(doc.to_string().as_bytes()))
        }),
        unit(format!("text/{name}"), 2, n / 80 + 3, |c| {
            c.base();
            c.json = true;
            c.frac = true;
            let text = T::g(c).j().to_string().into_bytes();
            c.evals += corrupt_text::<T>(&text)?;
            Ok(hash_bytes(&text))
        }),
        unit(format!("repeated keys/{name}"), 1, n / 8, |c| {
            c.base();
            c.json = true;
            c.frac = true;
            let doc = T::g(c).j();
            let mut n = 0;
            let mut h = 0u64;
            // every object gets each of its keys a second time, with the same or another value
            fn walk(v: &Value, f: &mut dyn FnMut(&Value, usize, &str, &Value)) {
                fn go(v: &Value, count: &mut usize, f: &mut dyn FnMut(&Value, usize, &str, &Value)) {
                    let me = *count;
                    *count += 1;
                    match v {
                        Value::Array(a) => a.iter().for_each(|x| go(x, count, f)),
                        Value::Object(m) => {
                            for (k, x) in m {
                                for alt in [x.clone(), Value::Null, json!(7), json!({}), json!("abc")] {
                                    f(v, me, k, &alt);
                                }
                            }
                            m.values().for_each(|x| go(x, count, f));
                        }
                        _ => {}
                    }
                }
                go(v, &mut 0, f)
            }
            fn print(v: &Value, count: &mut usize, at: usize, k: &str, alt: &Value, first: bool, o: &mut String) {
                let me = *count;
                *count += 1;
                match v {
                    Value::Array(a) => {
                        o.push('[');
                        for (i, x) in a.iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            print(x, count, at, k, alt, first, o);
                        }
                        o.push(']');
                    }
                    Value::Object(m) => {
                        o.push('{');
                        let mut sep = false;
                        if me == at && first {
                            o.push_str(&format!("{}:{alt}", Value::String(k.to_string())));
                            sep = true;
                        }
                        for (k, x) in m {
                            if sep {
                                o.push(',');
                            }
                            sep = true;
                            o.push_str(&format!("{}:", Value::String(k.to_string())));
                            print(x, count, at, k, alt, first, o);
                        }
                        if me == at && !first {
                            o.push_str(&format!(",{}:{alt}", Value::String(k.to_string())));
                        }
                        o.push('}');
                    }
                    x => o.push_str(&x.to_string()),
                }
            }
            let mut err = None;
            walk(&doc, &mut |_, at, k, alt| {
                for first in [false, true] {
                    if err.is_some() {
                        return;
                    }
                    let mut t = String::new();
                    print_doc(&doc, at, k, alt, first, &mut t, print);
                    n += 1;
                    match judge_text::<T>(t.as_bytes()) {
                        Ok(r) => h = h.wrapping_mul(31).wrapping_add(r),
                        Err(e) => err = Some(e),
                    }
                }
            });
            c.evals += n;
            match err {
                Some(e) => Err(e),
                None => Ok(h),
            }
        }),
    ]
}
#[allow(clippy::type_complexity)]
fn print_doc(v: &Value, at: usize, k: &str, alt: &Value, first: bool, o: &mut String, p: fn(&Value, &mut usize, usize, &str, &Value, bool, &mut String)) {
    p(v, &mut 0, at, k, alt, first, o)
}

/// Deeply nested documents.
fn deep<T: Js>(name: &str, _: Size) -> Vec<Unit> {
    const OPEN: [(&str, &str); 7] = [
        ("[", "]"),
        ("{\"policy\":", "}"),
        ("{\"type\":\"thresh\",\"policy\":{\"n\":1,\"of\":[", "]}}"),
        ("{\"policy\":{\"n\":1,\"of\":[", "]},\"type\":\"thresh\"}"),
        ("{\"unknown\":", "}"),
        ("{\"state\":", "}"),
        ("{\"parent\":", "}"),
    ];
    const DEPTHS: [usize; 12] = [1, 2, 3, 10, 30, 41, 42, 43, 64, 127, 1000, 100_000];
    vec![unit(format!("deep/{name}"), 0, 1 << 20, |c| {
        let (a, z) = OPEN[c.free(OPEN.len())];
        let d = DEPTHS[c.free(DEPTHS.len())];
        let core = ["", "0", "null", "{}", "{\"type\":\"above\",\"policy\":7}"][c.free(5)];
        let closed = c.free(2) == 0;
        let mut t = a.repeat(d);
        t.push_str(core);
        if closed {
            t.push_str(&z.repeat(d));
        }
        if closed && serde_json::from_str::<Value>(&t).is_err() {
            // deeper than the JSON library reads: whatever the outcome (unknown keys may be skipped), no crash
            let got = outcome::<T>(t.as_bytes())?;
            if let Ok(g) = &got {
                fixpoint(g, t.as_bytes())?;
            }
            return Ok(5 + got.is_ok() as u64);
        }
        judge_text::<T>(t.as_bytes())
    })]
}
pub fn c07() -> Vec<Unit> {
    let mut v: Vec<Unit> = all_json!(c07_unit);
    v.extend(all_json!(deep));
    // every kind of policy, alone and inside a threshold; every accumulator shape
    v.push(unit("policy kinds", 0, 1 << 20, |c| {
        c.json = true;
            c.frac = true;
        c.mode = 1;
        let nest = c.free(3);
        let kind = c.free(7);
        let text = c.free(2) == 1;
        #[allow(deprecated)]
        let mut p = match kind {
            0 => SpendPolicy::Above(G::g(c)),
            1 => SpendPolicy::After(G::g(c)),
            2 => SpendPolicy::PublicKey(G::g(c)),
            3 => SpendPolicy::Hash(G::g(c)),
            4 => SpendPolicy::Opaque(G::g(c)),
            5 => SpendPolicy::UnlockConditions(G::g(c)),
            _ => SpendPolicy::Threshold(2, vec![SpendPolicy::Above(1), SpendPolicy::Hash(G::g(c)), SpendPolicy::Threshold(0, vec![])]),
        };
        for _ in 0..nest {
            p = SpendPolicy::Threshold(1, vec![p, SpendPolicy::Above(3)]);
        }
        let doc = p.j();
        let mut n = 0;
        if text {
            c.evals += corrupt_text::<SpendPolicy>(doc.to_string().as_bytes())?;
            return Ok((nest * 7 + kind) as u64);
        }
        for part in 0..PARTS {
            mutants(&doc, part, &mut |d| {
                n += 1;
                judge_doc::<SpendPolicy>(d)?;
                Ok(())
            })?;
        }
        c.evals += n;
        Ok((nest * 7 + kind) as u64)
    }));
    v.push(unit("accumulators", 0, 1 << 20, |c| {
        // numLeaves and the number of trees vary independently
        let n = [0u64, 1, 2, 3, 7, 8, 1 << 31, 1 << 32, (1 << 32) | 5, 1 << 63, u64::MAX, u64::MAX - 1][c.free(12)];
        let k = c.free(70);
        let trees: Vec<Value> = (0..k).map(|i| Value::String(hexs(&[i as u8 + 1; 32]))).collect();
        judge_doc::<ElementAccumulator>(&json!({"numLeaves": n, "trees": trees}))
    }));
    // texts that no document produces
    v.push(unit("odd texts", 0, 1 << 20, |c| {
        const T: [&str; 40] = [
            "", " ", "null", "true", "false", "0", "-0", "-1", "1e3", "1E400", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "0.1", "01", "+1", ".5", "1.", "\"", "\"\"", "\"\\", "\"\\ud800\"", "\"\\ud800\\u0041\"", "\"\\u12\"", "\"\\x\"", "\"\u{1}\"", "[", "]", "[]", "{", "}", "{}",
            "{\"\":0}", "[[]]", "{\"type\":\"above\"}", "{\"policy\":1}", "{\"type\":\"above\",\"policy\":-1}", "{\"type\":1,\"policy\":1}", "NaN",
        ];
        let t = T[c.free(T.len())];
        let mut h = 0u64;
        macro_rules! t { ($($t:ty),*) => { $(h = h.wrapping_mul(7).wrapping_add(judge_text::<$t>(t.as_bytes())?);)* } }
        t!(Hash256, Address, Leaf, PublicKey, Signature, v1::UnlockKey, Work, Currency, ChainIndex, SiacoinOutput, ElementAccumulator, SpendPolicy, SatisfiedPolicy, v1::Transaction, v1::CoveredFields, v2::FileContractResolution, v2::Transaction, Network, State, ChainState, Block);
        Ok(h)
    }));
    v
}

#[cfg(feature = "pure")]
fn json_steps<T: Js>(o: &mut Vec<Step>, name: &str) {
    fn gen<T: Js>(m: usize) -> T {
        let mut k = Ctx::new(&[], false);
        k.mode = m;
        k.json = true;
        T::g(&mut k)
    }
    for m in [1, 2] {
        step(o, format!("{name} {m} to JSON"), move || gen::<T>(m), |v| {
            let want = v.j();
            match serde_json::to_value(v) {
                Ok(d) if d == want => Ok(1),
                d => bad(format!("{} serializes to {d:?}, the API shape is {}", dbg(v), clip(&want.to_string()))),
            }
        });
        let t = gen::<T>(m).j().to_string();
        text_step(o, format!("{name} {m} from JSON"), &t, judge_step::<T>);
        // broken off in the middle
        text_step(o, format!("{name} {m} from half its JSON"), &t[..t.len() / 2], judge_step::<T>);
    }
}
#[cfg(feature = "pure")]
fn judge_step<T: Js>(s: &str) -> Result<u64, String> {
    judge_text::<T>(s.as_bytes())
}
#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    json_steps::<v1::Transaction>(o, "v1 transaction");
    json_steps::<v2::Transaction>(o, "v2 transaction");
    json_steps::<SpendPolicy>(o, "policy");
    json_steps::<ChainState>(o, "chain state");
}
/// An operation on a bad argument: judged, or only whether it succeeds.
#[cfg(feature = "pure")]
pub struct Failing {
    pub name: String,
    pub cost: usize,
    pub judged: Box<dyn Fn() -> Result<u64, String> + Send + Sync>,
    pub quick: Box<dyn Fn() -> Result<bool, String> + Send + Sync>,
}
#[cfg(feature = "pure")]
pub fn failing(o: &mut Vec<Failing>) {
    fn put<T: Js>(o: &mut Vec<Failing>, name: &str, text: String) {
        let other = text.clone();
        o.push(Failing {
            name: format!("{name} from {}", clip(&text)),
            cost: text.len(),
            judged: Box::new(move || judge_text::<T>(text.as_bytes())),
            quick: Box::new(move || Ok(outcome::<T>(other.as_bytes())?.is_ok())),
        });
    }
    fn node<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
        match p.split_first() {
            None => v,
            Some((k, r)) => match v {
                Value::Array(a) => node(&mut a[k.parse::<usize>().unwrap()], r),
                Value::Object(m) => node(m.get_mut(k).unwrap(), r),
                _ => unreachable!(),
            },
        }
    }
    fn walk(v: &Value, at: &mut Vec<String>, seen: &mut std::collections::HashSet<String>, o: &mut Vec<Vec<String>>) {
        let pattern: Vec<&str> = at.iter().map(|k| if k.as_bytes()[0].is_ascii_digit() { "#" } else { k.as_str() }).collect();
        if seen.insert(pattern.join("/")) {
            o.push(at.clone());
        }
        let kids: Vec<(String, &Value)> = match v {
            Value::Array(a) => a.iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect(),
            Value::Object(m) => m.iter().map(|(k, x)| (k.clone(), x)).collect(),
            _ => vec![],
        };
        for (k, x) in kids {
            at.push(k);
            walk(x, at, seen, o);
            at.pop();
        }
    }
    fn all<T: Js>(o: &mut Vec<Failing>, name: &str, doc: Value) {
        let mut ps = vec![];
        walk(&doc, &mut vec![], &mut Default::default(), &mut ps);
        for p in ps {
            for s in [Value::Null, json!(-1), json!("zz"), json!([7]), json!({"type": "x"})] {
                let mut d = doc.clone();
                *node(&mut d, &p) = s;
                put::<T>(o, name, d.to_string());
            }
            if let Some(k) = p.last() {
                let mut d = doc.clone();
                match node(&mut d, &p[..p.len() - 1]) {
                    Value::Object(m) => {
                        m.remove(k);
                        m.insert("other".into(), json!(1));
                    }
                    Value::Array(a) => {
                        let x = a[0].clone();
                        a.resize(300, x);
                    }
                    _ => unreachable!(),
                }
                put::<T>(o, name, d.to_string());
            }
        }
        let t = doc.to_string();
        for i in 0..16 {
            let at = t.len() * i / 16;
            put::<T>(o, name, t[..at].to_string());
        }
    }
    fn gen<T: Js>() -> Value {
        let mut k = Ctx::new(&[], false);
        k.mode = 1;
        k.json = true;
        T::g(&mut k).j()
    }
    all::<v1::Transaction>(o, "v1 transaction", gen::<v1::Transaction>());
    all::<v2::Transaction>(o, "v2 transaction", gen::<v2::Transaction>());
    all::<ChainState>(o, "chain state", gen::<ChainState>());
    #[allow(deprecated)]
    let kinds = [
        SpendPolicy::Above(3),
        SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap()),
        SpendPolicy::PublicKey(PublicKey::new([1; 32])),
        SpendPolicy::Hash(Hash256::new([2; 32])),
        SpendPolicy::Opaque(Address::new([3; 32])),
        SpendPolicy::UnlockConditions(v1::UnlockConditions::standard_unlock_conditions(PublicKey::new([1; 32]))),
    ];
    for k in kinds {
        all::<SpendPolicy>(o, "policy", k.j());
        all::<SpendPolicy>(o, "policy", SpendPolicy::Threshold(1, vec![SpendPolicy::Above(1), k]).j());
    }
    all::<SpendPolicy>(o, "policy", SpendPolicy::Threshold(1, vec![SpendPolicy::Threshold(1, vec![SpendPolicy::Above(2)])]).j());
}
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C06",
        level: MC,
        profiles: C,
        units: c06,
        rule: "for each type: every value with at most `deviation_bound` deviations from three base values is serialized and compared with an independent model of the API shape, and parsed back from text, bytes, a reader and a document, with other key orders, white space, fully escaped strings and currencies as numbers; policies nested up to 40 levels",
        assumptions: &["the JSON shapes in harness/src/model.rs are the Sia API's", "dates are within RFC 3339's years, key algorithms are UTF-8 without ':'"],
    },
    Prop {
        id: "C07",
        level: MC,
        profiles: C,
        units: c07,
        rule: "for each type and each document of a value with at most `deviation_bound` deviations: every node replaced by every substitute (other JSON types, boundary numbers, corrupted and resized texts, resized lists, removed, renamed and exchanged keys), every truncation, byte replacement, insertion and deletion of the text, every repeated key, documents nested up to 100000 levels; the outcome is compared with a reference reader that says accept (with which value), reject or open, and accepted values must survive serialization",
        assumptions: &["not decided: arrays in place of objects, unknown and repeated keys, times in other than the canonical form, numbers written with a fraction or exponent, ids with an unknown prefix, fewer than 11 timestamps, empty work text, 'after' beyond i64, contents of an expiration's resolution"],
    },
];
