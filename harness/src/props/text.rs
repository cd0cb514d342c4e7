//! C08, C09, C10: text forms of addresses, ids, keys and amounts.
use super::refs::*;
use super::*;
use crate::model::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use serde_json::Value;
use sia::signing::{PublicKey, Signature};
use sia::types::v1::UnlockKey;
use sia::types::*;

/// A set of byte contents of length n.
fn contents(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; n], vec![0xff; n]];
    for i in 0..16 {
        v.push((0..n).map(|k| ((k * 17 + i * 31) ^ (i << 4 | i)) as u8).collect());
    }
    v.push((0..n).map(|k| k as u8).collect());
    v.push((0..n).map(|k| 255 - k as u8).collect());
    v.push((0..n).map(|k| if k % 2 == 0 { 0xab } else { 0xcd }).collect());
    v
}
fn case(s: &str, how: usize) -> String {
    match how {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == how % 2 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn via_json<T: serde::de::DeserializeOwned>(s: &str) -> Result<Option<T>, String> {
    let j = Value::String(s.to_string()).to_string();
    let a = guarded(|| serde_json::from_str::<T>(&j).ok()).map_err(|p| format!("parsing {j} as JSON panics: {p}"))?;
    Ok(a)
}

/// Replacement characters, of one to four bytes.
fn chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|b| b as char).collect();
    v.extend(['\u{80}', '\u{e9}', '\u{ff10}', '\u{661}', '\u{1d7d8}', '\u{2028}', '\u{fffd}']);
    v
}
/// Every small corruption of a text: `kind` selects the group, `f` gets each text.
const KINDS: usize = 6;
fn corruptions(s: &str, kind: usize, f: &mut dyn FnMut(&str) -> Result<(), String>) -> Result<(), String> {
    let n = s.len();
    let cs = chars();
    match kind {
        0 => {
            // every character replaced by every other
            for i in 0..n {
                for &c in &cs {
                    let mut t = String::with_capacity(n + 4);
                    t.push_str(&s[..i]);
                    t.push(c);
                    t.push_str(&s[i + 1..]);
                    f(&t)?;
                    // the same number of bytes
                    let k = c.len_utf8();
                    if k > 1 && i + k <= n {
                        let mut t = s[..i].to_string();
                        t.push(c);
                        t.push_str(&s[i + k..]);
                        f(&t)?;
                    }
                }
            }
        }
        1 => {
            // every character inserted everywhere
            for i in 0..=n {
                for c in ['0', '1', 'a', 'F', 'g', ' ', ':', '\n', '\0', '-', '+', 'x', '\u{e9}', '\u{1d7d8}'] {
                    f(&format!("{}{c}{}", &s[..i], &s[i..]))?;
                }
            }
        }
        2 => {
            // every piece removed, every prefix and suffix kept
            for i in 0..=n {
                for j in i..=n {
                    if j - i <= 4 || i == 0 || j == n {
                        f(&format!("{}{}", &s[..i], &s[j..]))?;
                    }
                }
            }
        }
        3 => {
            // every two characters exchanged or both changed
            let b = s.as_bytes();
            for i in 0..n {
                for j in i + 1..n {
                    let mut t = b.to_vec();
                    t.swap(i, j);
                    f(std::str::from_utf8(&t).unwrap())?;
                    let bump = |c: u8| match c {
                        b'9' => b'a',
                        b'f' => b'0',
                        b'F' => b'0',
                        b'0'..=b'8' | b'a'..=b'e' | b'A'..=b'E' => c + 1,
                        c => c ^ 1,
                    };
                    let mut t = b.to_vec();
                    t[i] = bump(t[i]);
                    t[j] = bump(t[j]);
                    f(std::str::from_utf8(&t).unwrap())?;
                }
            }
        }
        4 => {
            // pieces around the text
            for p in ["", " ", "\t", "\n", "\0", "0x", "0X", "addr:", "ed25519:", "ED25519:", "ed25519", ":", "::", "h:", "-", "+", "\"", "\u{feff}", "0", "00"] {
                for q in ["", " ", "\n", "\0", ":", "h", "0", "00", "\u{a0}"] {
                    f(&format!("{p}{s}{q}"))?;
                    if let Some((a, b)) = s.split_once(':') {
                        f(&format!("{a}{p}{b}{q}"))?;
                        f(&format!("{p}{b}{q}"))?;
                        f(&format!("{a}:{p}{b}{q}"))?;
                        f(&format!("{a}{p}:{b}{q}"))?;
                    }
                }
            }
            f(&format!("{s}{s}"))?;
            f(&s.chars().rev().collect::<String>())?;
        }
        _ => {
            // every length
            for k in 0..200 {
                f(&"0".repeat(k))?;
                f(&"aB".repeat(k))?;
                f(&"g".repeat(k))?;
                f(&"\u{e9}".repeat(k))?;
                f(&format!("ed25519:{}", "1".repeat(k)))?;
                f(&format!("a:{}", "1".repeat(k)))?;
                f(&format!("{}:{}", "a".repeat(k), "1".repeat(64)))?;
                f(&format!("{}:", "\u{e9}".repeat(k)))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C08

fn check_address(s: &str) -> Result<(), String> {
    let want = ref_address(s);
    let got = guarded(|| Address::parse_string(s).ok()).map_err(|p| format!("parsing {s:?} panics: {p}"))?;
    if got.as_ref().map(addr_bytes) != want {
        return bad(format!("parsing {s:?} gives {got:?}, expected {:?}", want.map(|w| hexs(&w))));
    }
    let got: Option<Address> = via_json(s)?;
    if got.as_ref().map(addr_bytes) != want {
        return bad(format!("parsing the JSON string {s:?} gives {got:?}, expected {:?}", want.map(|w| hexs(&w))));
    }
    Ok(())
}
pub fn c08() -> Vec<Unit> {
    vec![
        unit("round trip", 0, u64::MAX, |c| {
            let bases = contents(32);
            let mut a: [u8; 32] = bases[c.free(bases.len())].clone().try_into().unwrap();
            let pos = c.free(32);
            for v in 0..=255u8 {
                a[pos] = v;
                let want = addr_text(&a);
                let x = Address::new(a);
                let got = x.to_string();
                if got != want {
                    return bad(format!("{} is printed as {got}, expected {want}", hexs(&a)));
                }
                let j = serde_json::to_value(&x).map_err(|e| e.to_string())?;
                if j != Value::String(want.clone()) {
                    return bad(format!("{} is {j} in JSON", hexs(&a)));
                }
                for how in 0..4 {
                    check_address(&case(&want, how))?;
                }
                c.evals += 6;
            }
            c.sample(|| format!("{}", Address::new(a)));
            Ok(hash_bytes(&a) ^ pos as u64)
        }),
        unit("checksum bits", 0, u64::MAX, |c| {
            // every value of every checksum byte, every bit of the address
            let bases = contents(32);
            let a: [u8; 32] = bases[c.free(bases.len())].clone().try_into().unwrap();
            let mut b = a.to_vec();
            b.extend(&blake(&[&a])[..6]);
            for i in 0..38 {
                for v in 0..=255u8 {
                    let mut t = b.clone();
                    t[i] = v;
                    check_address(&hexs(&t))?;
                    c.evals += 1;
                }
            }
            // two checksum bytes at once
            for i in 32..38 {
                for j in i + 1..38 {
                    for m in 1..=255u8 {
                        let mut t = b.clone();
                        t[i] ^= m;
                        t[j] ^= m.rotate_left(1);
                        check_address(&hexs(&t))?;
                        let mut t = b.clone();
                        t[i] = t[i].wrapping_add(m);
                        t[j] = t[j].wrapping_sub(m);
                        check_address(&hexs(&t))?;
                        c.evals += 2;
                    }
                }
            }
            // other checksums
            let full = blake(&[&a]);
            for k in 1..26 {
                let mut t = a.to_vec();
                t.extend(&full[k..k + 6]);
                check_address(&hexs(&t))?;
                c.evals += 1;
            }
            for other in [[0u8; 6], [0xff; 6]] {
                let mut t = a.to_vec();
                t.extend(other);
                check_address(&hexs(&t))?;
            }
            let mut t = a.to_vec();
            t.extend(&b[32..].iter().rev().copied().collect::<Vec<_>>());
            check_address(&hexs(&t))?;
            Ok(hash_bytes(&a))
        }),
        unit("corruptions", 0, u64::MAX, |c| {
            let bases = contents(32);
            let a: [u8; 32] = bases[c.free(bases.len())].clone().try_into().unwrap();
            let how = c.free(3);
            let kind = c.free(KINDS);
            let text = case(&addr_text(&a), how);
            let mut n = 0;
            corruptions(&text, kind, &mut |t| {
                n += 1;
                check_address(t)
            })?;
            c.evals += n;
            c.sample(|| format!("{n} corruptions of {text}"));
            Ok(hash_bytes(text.as_bytes()) ^ kind as u64)
        }),
    ]
}

// ---------------------------------------------------------------------- C09

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    Value(Vec<u8>),
    Reject,
    /// may be refused, or accepted with this value
    Open(Vec<u8>),
}
struct Form {
    name: &'static str,
    len: usize,
    prefix: &'static str,
    /// text -> bytes, None = rejected; the first is the string parser, if any
    parse: Vec<(&'static str, fn(&str) -> Result<Option<Vec<u8>>, String>)>,
    show: fn(&[u8]) -> Vec<(&'static str, String)>,
    judge: fn(&str) -> Verdict,
}
fn hash_id(s: &str) -> Verdict {
    let (pre, t) = match s.split_once(':') {
        Some((_, t)) => (true, t),
        None => (false, s),
    };
    match unhex(t) {
        Some(b) if b.len() == 32 => {
            if pre {
                Verdict::Open(b)
            } else {
                Verdict::Value(b)
            }
        }
        _ => Verdict::Reject,
    }
}
fn exact64(s: &str) -> Verdict {
    match unhex(s) {
        Some(b) if b.len() == 64 => Verdict::Value(b),
        _ => Verdict::Reject,
    }
}
fn jtext<T: serde::Serialize>(t: &T) -> String {
    match serde_json::to_value(t) {
        Ok(Value::String(s)) => s,
        o => format!("not a string: {o:?}"),
    }
}
fn forms() -> Vec<Form> {
    let mut v = vec![];
    macro_rules! hash_form {
        ($($t:ident),*) => {$(
            v.push(Form {
                name: stringify!($t),
                len: 32,
                prefix: "",
                parse: vec![
                    ("parse_string", |s| guarded(|| $t::parse_string(s).ok().map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()))),
                    ("JSON", |s| Ok(via_json::<$t>(s)?.map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()))),
                ],
                show: |b| {
                    let x = $t::new(b.try_into().unwrap());
                    vec![("Display", x.to_string()), ("JSON", jtext(&x))]
                },
                judge: hash_id,
            });
        )*};
    }
    hash_form!(Hash256, SiacoinOutputID, AttestationID, SiafundOutputID, BlockID, TransactionID, FileContractID);
    v.push(Form {
        name: "Signature",
        len: 64,
        prefix: "",
        parse: vec![
            ("parse_string", |s| guarded(|| Signature::parse_string(s).ok().map(|x| x.data().to_vec()))),
            ("JSON", |s| Ok(via_json::<Signature>(s)?.map(|x| x.data().to_vec()))),
        ],
        show: |b| {
            let x = Signature::new(b.try_into().unwrap());
            vec![("Display", x.to_string()), ("JSON", jtext(&x))]
        },
        judge: exact64,
    });
    v.push(Form {
        name: "Leaf",
        len: 64,
        prefix: "",
        parse: vec![
            ("parse_string", |s| guarded(|| Leaf::parse_string(s).ok().map(|x| { let mut o = vec![]; x.e2(&mut o); o }))),
            ("JSON", |s| Ok(via_json::<Leaf>(s)?.map(|x| { let mut o = vec![]; x.e2(&mut o); o }))),
        ],
        show: |b| {
            let a: [u8; 64] = b.try_into().unwrap();
            let x = Leaf::from(a);
            vec![("Display", x.to_string()), ("JSON", jtext(&x))]
        },
        judge: exact64,
    });
    v.push(Form {
        name: "PublicKey",
        len: 32,
        prefix: "ed25519:",
        parse: vec![("JSON", |s| Ok(via_json::<PublicKey>(s)?.map(|x| x.as_ref().to_vec())))],
        show: |b| {
            let x = PublicKey::new(b.try_into().unwrap());
            vec![("Display", x.to_string()), ("JSON", jtext(&x))]
        },
        judge: |s| match s.strip_prefix("ed25519:").and_then(unhex) {
            Some(b) if b.len() == 32 => Verdict::Value(b),
            _ => Verdict::Reject,
        },
    });
    v
}
fn check_text(f: &Form, s: &str) -> Result<(), String> {
    let want = (f.judge)(s);
    for (how, p) in &f.parse {
        let got = p(s).map_err(|e| format!("{}: parsing {s:?} ({how}) panics: {e}", f.name))?;
        let ok = match (&want, &got) {
            (Verdict::Value(w), Some(g)) => w == g,
            (Verdict::Open(w), Some(g)) => w == g,
            (Verdict::Open(_), None) => true,
            (Verdict::Reject, None) => true,
            _ => false,
        };
        if !ok {
            return bad(format!("{}: parsing {s:?} ({how}) gives {:?}, expected {want:?}", f.name, got.map(|g| hexs(&g))));
        }
    }
    Ok(())
}
fn check_unlock_key(s: &str) -> Result<(), String> {
    let want = ref_unlock_key(s);
    let of = |k: UnlockKey| (*k.algorithm.as_bytes(), k.key);
    let got = guarded(|| UnlockKey::parse_string(s).ok()).map_err(|p| format!("UnlockKey: parsing {s:?} panics: {p}"))?.map(of);
    if got != want {
        return bad(format!("UnlockKey: parsing {s:?} gives {got:?}, expected {want:?}"));
    }
    let got = via_json::<UnlockKey>(s)?.map(of);
    if got != want {
        return bad(format!("UnlockKey: parsing the JSON string {s:?} gives {got:?}, expected {want:?}"));
    }
    Ok(())
}
fn algorithms() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "a", "ed25519", "entropy", "0123456789abcdef", "0123456789abcde", "\u{e9}", "\u{1d7d8}x", "A B", "-", "\"", "\\", "\u{1}"].iter().map(|s| s.as_bytes().to_vec()).collect();
    for n in 0..=16 {
        v.push((0..n).map(|i| b'a' + i as u8).collect());
    }
    v
}
macro_rules! literals {
    ($($l:literal)*) => {
        vec![$(($l, {
            const A: Hash256 = sia::hash_256!($l);
            const B: SiacoinOutputID = sia::siacoin_id!($l);
            const C: SiafundOutputID = sia::siafund_id!($l);
            const D: FileContractID = sia::contract_id!($l);
            const E: TransactionID = sia::transaction_id!($l);
            const F: BlockID = sia::block_id!($l);
            let v: Vec<(&str, [u8; 32], Option<[u8; 32]>)> = vec![
                ("hash_256!", A.into(), Hash256::parse_string($l).ok().map(|x| x.into())),
                ("siacoin_id!", B.into(), SiacoinOutputID::parse_string($l).ok().map(|x| x.into())),
                ("siafund_id!", C.into(), SiafundOutputID::parse_string($l).ok().map(|x| x.into())),
                ("contract_id!", D.into(), FileContractID::parse_string($l).ok().map(|x| x.into())),
                ("transaction_id!", E.into(), TransactionID::parse_string($l).ok().map(|x| x.into())),
                ("block_id!", F.into(), BlockID::parse_string($l).ok().map(|x| x.into())),
            ];
            v
        })),*]
    };
}
macro_rules! key_literals {
    ($($l:literal)*) => { vec![$(($l, { const P: PublicKey = sia::public_key!($l); P })),*] };
}
macro_rules! address_literals {
    ($($l:literal)*) => { vec![$(($l, { const P: Address = sia::address!($l); P })),*] };
}
pub fn c09() -> Vec<Unit> {
    let nf = forms().len();
    vec![
        unit("round trip", 0, u64::MAX, move |c| {
            let fs = forms();
            let f = &fs[c.free(nf)];
            let bases = contents(f.len);
            let mut b = bases[c.free(bases.len())].clone();
            let pos = c.free(f.len);
            for v in 0..=255u8 {
                b[pos] = v;
                let want = format!("{}{}", f.prefix, hexs(&b));
                for (how, got) in (f.show)(&b) {
                    if got != want {
                        return bad(format!("{} {} is printed as {got} ({how}), expected {want}", f.name, hexs(&b)));
                    }
                }
                check_text(f, &want)?;
                let k = 1 + v as usize % 3;
                check_text(f, &format!("{}{}", f.prefix, case(&hexs(&b), k)))?;
                c.evals += 4;
            }
            Ok(hash_bytes(&b) ^ hash_bytes(f.name.as_bytes()))
        }),
        unit("corruptions", 0, u64::MAX, move |c| {
            let fs = forms();
            let f = &fs[c.free(nf)];
            let bases = contents(f.len);
            let b = &bases[[0, 1, 5, 18][c.free(4)]];
            let kind = c.free(KINDS);
            let text = format!("{}{}", f.prefix, hexs(b));
            let mut n = 0;
            corruptions(&text, kind, &mut |t| {
                n += 1;
                check_text(f, t)
            })?;
            c.evals += n;
            c.sample(|| format!("{n} corruptions of {text} as {}", f.name));
            Ok(hash_bytes(text.as_bytes()) ^ hash_bytes(f.name.as_bytes()) ^ kind as u64)
        }),
        unit("unlock keys", 0, u64::MAX, |c| {
            let algs = algorithms();
            let a = &algs[c.free(algs.len())];
            let lens = [0usize, 1, 2, 3, 16, 31, 32, 33, 64, 100, 1000];
            let n = lens[c.free(lens.len())];
            for k in contents(n) {
                let mut alg = [0; 16];
                alg[..a.len()].copy_from_slice(a);
                let u = UnlockKey {
                    algorithm: Specifier::new(alg),
                    key: k.clone(),
                };
                let want = format!("{}:{}", std::str::from_utf8(a).unwrap(), hexs(&k));
                let (g1, g2) = (u.to_string(), jtext(&u));
                if g1 != want || g2 != want {
                    return bad(format!("{u:?} is printed as {g1:?} and {g2:?}, expected {want:?}"));
                }
                check_unlock_key(&want)?;
                for how in 1..4 {
                    check_unlock_key(&format!("{}:{}", std::str::from_utf8(a).unwrap(), case(&hexs(&k), how)))?;
                }
                c.evals += 5;
            }
            Ok(hash_bytes(a) ^ n as u64)
        }),
        unit("unlock keys/corruptions", 0, u64::MAX, |c| {
            let texts = [
                format!("ed25519:{}", hexs(&contents(32)[5])),
                "entropy:".to_string(),
                ":".to_string(),
                "a:00".to_string(),
                format!("0123456789abcdef:{}", hexs(&contents(8)[18])),
                format!("123456789abcd\u{e9}:{}", hexs(&contents(4)[18])).replace('\u{e9}', "e9"),
            ];
            let t = &texts[c.free(texts.len())];
            let kind = c.free(KINDS);
            let mut n = 0;
            corruptions(t, kind, &mut |t| {
                n += 1;
                check_unlock_key(t)
            })?;
            c.evals += n;
            Ok(hash_bytes(t.as_bytes()) ^ kind as u64)
        }),
        // algorithms as bytes: printed up to the last non-zero byte, never a panic
        unit("specifiers", 0, u64::MAX, |c| {
            let n = c.free(17);
            let fill = [b'a', 0, 0x80, 0xff, 0xc3][c.free(5)];
            for pos in 0..16 {
                for v in 0..=255u8 {
                    let mut a = [0u8; 16];
                    for x in a.iter_mut().take(n) {
                        *x = fill;
                    }
                    a[pos] = v;
                    let s = Specifier::new(a);
                    let got = guarded(|| s.to_string()).map_err(|p| format!("printing {a:?} panics: {p}"))?;
                    let end = a.iter().rposition(|&x| x != 0).map_or(0, |i| i + 1);
                    if let Ok(want) = std::str::from_utf8(&a[..end]) {
                        if got != want {
                            return bad(format!("{a:?} is printed as {got:?}"));
                        }
                        let back = Specifier::from(want);
                        if *back.as_bytes() != a {
                            return bad(format!("{want:?} becomes {back:?}"));
                        }
                        if !want.contains(':') {
                            check_unlock_key(&format!("{want}:00ff"))?;
                        }
                    }
                    c.evals += 1;
                }
            }
            Ok((n as u64) << 8 | fill as u64)
        }),
        unit("literals", 0, u64::MAX, |c| {
            let all = literals!(
                "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
                "123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0"
                "23456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef01"
                "3456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef012"
                "456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123"
                "56789abcdef0123456789abcdef0123456789abcdef0123456789abcdef01234"
                "6789abcdef0123456789abcdef0123456789abcdef0123456789abcdef012345"
                "789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456"
                "89ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF01234567"
                "9ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF012345678"
                "ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789"
                "BCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789A"
                "Cdef0123456789abCdEf0123456789abCdEf0123456789abCdEf0123456789ab"
                "dEf0123456789aBcdEf0123456789aBcdEf0123456789aBcdEf0123456789aBc"
                "EF0123456789abcdEF0123456789abcdEF0123456789abcdEF0123456789abcd"
                "f0123456789ABCDEf0123456789ABCDEf0123456789ABCDEf0123456789ABCDE"
            );
            let (l, v) = &all[c.free(all.len())];
            let want: [u8; 32] = unhex(l).unwrap().try_into().unwrap();
            for (m, got, parsed) in v {
                if *got != want || *parsed != Some(want) {
                    return bad(format!("{m} of {l} is {}, parsed {parsed:?}", hexs(got)));
                }
                c.evals += 1;
            }
            Ok(hash_bytes(&want))
        }),
        unit("literals/keys", 0, u64::MAX, |c| {
            let keys = key_literals!(
                "ed25519:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
                "ed25519:fedcba9876543210FEDCBA9876543210fedcba9876543210fedcba9876543210"
                "ed25519:00000000000000000000000000000000000000000000000000000000000000ff"
                "ed25519:ff00000000000000000000000000000000000000000000000000000000000001"
            );
            let addrs = address_literals!(
                "000000000000000000000000000000000000000000000000000000000000000089eb0d6a8a69"
                "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cdf32abee86f0"
                "5eb70f141387df1e2ecd434b22be50bff57a6e08484f3890fe4415a6d323b5e9e758b4f79b34"
                "5EB70F141387DF1E2ECD434B22BE50BFF57A6E08484F3890FE4415A6D323B5E9E758B4F79B34"
            );
            let k = c.free(4);
            let (l, p) = &keys[k];
            let want = unhex(&l[8..]).unwrap();
            if p.as_ref() != want {
                return bad(format!("public_key! of {l} is {p}"));
            }
            let (l, a) = &addrs[k];
            if a.as_ref() != unhex(&l[..64]).unwrap() || Address::parse_string(l) != Ok(a.clone()) {
                return bad(format!("address! of {l} is {a}"));
            }
            Ok(k as u64)
        }),
        // the function behind the literals, on every digit at every position
        unit("literals/digits", 0, u64::MAX, |c| {
            let pos = c.free(64);
            let base = b"0123456789abcdefFEDCBA98765432100f1e2d3c4b5a6978ffffffff00000000";
            for v in 0..=255u8 {
                let mut t = base.to_vec();
                t[pos] = v;
                let got = guarded(|| sia::macros::decode_hex_256(&t)).ok();
                let want: Option<[u8; 32]> = std::str::from_utf8(&t).ok().and_then(unhex).map(|b| b.try_into().unwrap());
                if got != want {
                    return bad(format!("the literal decoder gives {got:?} for byte {v:#x} at position {pos}, expected {want:?}"));
                }
                c.evals += 1;
            }
            Ok(pos as u64)
        }),
        unit("chain index", 1, 10_000, |c| {
            c.base();
            let x = ChainIndex::g(c);
            let id: [u8; 32] = x.id.into();
            let want = format!("{}:{}", x.height, hexs(&id));
            if x.to_string() != want {
                return bad(format!("{x:?} is printed as {x}"));
            }
            Ok(hash_bytes(want.as_bytes()))
        }),
    ]
}

// ---------------------------------------------------------------------- C10

fn judge_amount(s: &str, how: &str, got: Option<Currency>) -> Result<u64, String> {
    let want = ref_amount(s);
    let ok = match (&want, &got) {
        (Amount::Value(w), Some(g)) => cur_u128(g) == *w,
        (Amount::Open(w), Some(g)) => cur_u128(g) == *w,
        (Amount::Open(_), None) | (Amount::Reject, None) => true,
        _ => false,
    };
    if !ok {
        return bad(format!("{how} of {s:?} gives {:?}, expected {want:?}", got.map(|g| cur_u128(&g))));
    }
    Ok(match want {
        Amount::Value(v) => v as u64 ^ (v >> 64) as u64,
        Amount::Reject => 1,
        Amount::Open(_) => 2,
    })
}
fn check_amount(s: &str, json: bool) -> Result<u64, String> {
    let got = guarded(|| Currency::parse_string(s).ok()).map_err(|p| format!("parsing {s:?} panics: {p}"))?;
    let h = judge_amount(s, "parsing", got)?;
    if json {
        judge_amount(s, "parsing the JSON string", via_json::<Currency>(s)?)?;
    }
    Ok(h)
}
/// The amounts around everything that can overflow or round.
fn amounts() -> Vec<BigUint> {
    let one = BigUint::from(1u8);
    let max = BigUint::from(u128::MAX);
    let mut v = vec![BigUint::zero(), one.clone(), max.clone(), &max - &one, &max + &one, &max + BigUint::from(2u8), &max * BigUint::from(2u8), &max * BigUint::from(10u8), &max * &max];
    for k in 0..130 {
        let p: BigUint = BigUint::from(1u8) << (k as usize);
        v.push(&p - &one);
        v.push(p.clone());
        v.push(&p + &one);
    }
    for k in 0..45u32 {
        let p = BigUint::from(10u8).pow(k);
        v.push(&p - &one);
        v.push(&p + &one);
        v.push(&p * BigUint::from(3u8));
        v.push(&p * BigUint::from(9u8) + BigUint::from(5u8));
        v.push(p.clone());
        // the largest amounts that fit and the smallest that do not
        if p <= max {
            let q = &max / &p;
            v.push(q.clone() * &p);
            v.push((&q + &one) * &p);
            v.push(q);
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn c10() -> Vec<Unit> {
    const AB: [char; 16] = ['0', '1', '9', '.', ' ', 'S', 'C', 'H', 'K', 'm', 'p', '-', '+', 'e', ',', '\u{661}'];
    const TOK: [&str; 36] = [
        "", "0", "1", "5", "00", "10", "999", "34028236692093846346337460743176821145", "000000000000000000000000", ".", ".0", ".5", ".1", ".000000000000", " ", "  ", "\t", "\u{a0}", "H", "pS", "nS", "uS", "mS", "SC", "KS", "MS",
        "GS", "TS", "S", "C", "s", "-", "+", "e", "_", "\u{ff11}",
    ];
    let depth = if crate::thorough() { 6 } else { 5 };
    vec![
        // every string over the alphabet up to a length
        unit("strings", 0, u64::MAX, move |c| {
            let a = c.free(AB.len() + 1);
            let b = if a == 0 { 0 } else { c.free(AB.len() + 1) };
            let mut h = 0u64;
            let mut s = String::new();
            if a > 0 {
                s.push(AB[a - 1]);
            }
            if b > 0 {
                s.push(AB[b - 1]);
            }
            let rest = if a == 0 || b == 0 { 0 } else { depth - 2 };
            let mut n = 0;
            fn rec(s: &mut String, left: usize, h: &mut u64, n: &mut u64, ab: &[char]) -> Result<(), String> {
                *h = h.rotate_left(5) ^ check_amount(s, s.len() <= 3)?;
                *n += 1;
                if left > 0 {
                    for &x in ab {
                        s.push(x);
                        rec(s, left - 1, h, n, ab)?;
                        s.pop();
                    }
                }
                Ok(())
            }
            rec(&mut s, rest, &mut h, &mut n, &AB)?;
            c.evals += n;
            Ok(h ^ hash_bytes(s.as_bytes()))
        }),
        // everything of up to three characters after a number
        unit("units", 0, u64::MAX, |c| {
            let all: Vec<char> = (0x20..0x7f).map(char::from).chain("\u{b5}\u{3bc}\u{df}\u{17f}\u{212a}\u{ff33}".chars()).collect();
            let a = all[c.free(all.len())];
            let mut h = 0u64;
            for x in ["1", "0", "1.5", "2 "] {
                h ^= check_amount(&format!("{x}{a}"), true)?;
                for b in &all {
                    h = h.rotate_left(5) ^ check_amount(&format!("{x}{a}{b}"), x == "1")?;
                    c.evals += 1;
                    if x == "1" || a.is_ascii_alphabetic() {
                        for d in &all {
                            h = h.rotate_left(5) ^ check_amount(&format!("{x}{a}{b}{d}"), false)?;
                            c.evals += 1;
                        }
                    }
                }
            }
            Ok(h ^ a as u64)
        }),
        // every sequence of tokens
        unit("tokens", 0, u64::MAX, |c| {
            let a = c.free(TOK.len());
            let b = c.free(TOK.len());
            let mut h = 0u64;
            for x in TOK {
                for y in TOK {
                    let s = format!("{}{}{x}{y}", TOK[a], TOK[b]);
                    h = h.rotate_left(5) ^ check_amount(&s, x.is_empty())?;
                    if y == "SC" || y == "TS" || y == "H" {
                        for z in [" ", "\n", "S", ".", "1"] {
                            check_amount(&format!("{s}{z}"), false)?;
                            c.evals += 1;
                        }
                    }
                    c.evals += 1;
                }
            }
            Ok(h ^ (a * 64 + b) as u64)
        }),
        // amounts at every boundary, written in every unit and precision
        unit("amounts", 0, u64::MAX, |c| {
            let all = amounts();
            let v = &all[c.free(all.len())];
            let (u, p) = UNITS[c.free(UNITS.len())];
            let mut d = v.to_string();
            while d.len() <= p {
                d.insert(0, '0');
            }
            let (int, frac) = d.split_at(d.len() - p);
            let mut h = 0;
            for lead in ["", "0", "00000000000000000000000000000000000000000"] {
                for sp in ["", " "] {
                    let t = frac.trim_end_matches('0');
                    for f in [frac.to_string(), t.to_string(), format!("{frac}0"), format!("{frac}1"), format!("{frac}5"), format!("{frac}9"), format!("{frac}0000000000000000000000000001"), format!("{t}000000000000000000000000000000000000000000000"), format!("{frac}0.0"), "".to_string()] {
                        let s = if f.is_empty() { format!("{lead}{int}{sp}{u}") } else { format!("{lead}{int}.{f}{sp}{u}") };
                        h ^= check_amount(&s, true)?;
                        check_amount(&format!("-{s}"), false)?;
                        check_amount(&format!("+{s}"), false)?;
                        c.evals += 3;
                    }
                }
            }
            c.sample(|| format!("{v} hastings in {u:?}"));
            // and the amount as an integer of the unit
            check_amount(&format!("{v}{u}"), true)?;
            check_amount(&format!("{v} {u}"), true)?;
            Ok(h ^ hash_bytes(v.to_string().as_bytes()) ^ p as u64)
        }),
        // every digit count and position of the only non-zero digit
        unit("digits", 0, u64::MAX, |c| {
            let (u, _) = UNITS[c.free(UNITS.len())];
            let ni = c.free(45);
            let mut h = 0;
            for nf in 0..45 {
                for pos in 0..ni + nf {
                    let mut s = String::new();
                    for i in 0..ni {
                        s.push(if i == pos { '7' } else { '0' });
                    }
                    if nf > 0 {
                        s.push('.');
                    }
                    for i in 0..nf {
                        s.push(if ni + i == pos { '3' } else { '0' });
                    }
                    s.push_str(u);
                    h ^= check_amount(&s, false)?;
                    c.evals += 1;
                }
            }
            Ok(h ^ (ni as u64) << 8 ^ hash_bytes(u.as_bytes()))
        }),
        // what is printed is parsed back; JSON numbers
        unit("printed", 0, u64::MAX, |c| {
            let all = amounts();
            let v = &all[c.free(all.len())];
            let j = v.to_string();
            let got = guarded(|| serde_json::from_str::<Currency>(&j).ok()).map_err(|p| format!("parsing the JSON number {j} panics: {p}"))?;
            let exact = v.to_u128();
            match (got, exact) {
                (Some(g), Some(e)) if cur_u128(&g) == e => {}
                (None, Some(e)) if e > u64::MAX as u128 => {} // beyond serde_json's integers
                (None, None) => {}
                (g, _) => return bad(format!("the JSON number {j} gives {g:?}")),
            }
            for j in [format!("-{j}"), format!("{j}.5"), format!("{j}e0"), format!("{j}.0"), format!("{j}e-1"), "true".into(), "null".into(), format!("[{j}]"), format!("{{\"a\":{j}}}"), format!("[\"{j}\"]")] {
                let g = guarded(|| serde_json::from_str::<Currency>(&j).ok()).map_err(|p| format!("parsing the JSON {j} panics: {p}"))?;
                let whole = j.strip_suffix(".0").or(j.strip_suffix("e0")).and_then(|t| t.parse::<u128>().ok());
                let zero = j.starts_with("-0");
                if let Some(g) = g {
                    if !(whole == Some(cur_u128(&g)) || (zero && cur_u128(&g) == 0)) {
                        return bad(format!("the JSON {j} is accepted as {g:?}"));
                    }
                }
                c.evals += 1;
            }
            if let Some(e) = exact {
                let x = Currency::new(e);
                let s = x.to_string();
                if s != v.to_string() {
                    return bad(format!("{v} hastings are printed as {s}"));
                }
                if jtext(&x) != s {
                    return bad(format!("{v} hastings are {} in JSON", jtext(&x)));
                }
                check_amount(&s, true)?;
            }
            Ok(hash_bytes(j.as_bytes()))
        }),
    ]
}

#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    for k in [1u8, 2] {
        let t = addr_text(&[k; 32]);
        text_step(o, format!("parsing address {k}"), &t, |s| check_address(s).map(|_| 1));
        text_step(o, format!("parsing address {k} in upper case"), &t.to_uppercase(), |s| check_address(s).map(|_| 1));
        let mut w = t.clone();
        w.replace_range(70..71, if &t[70..71] == "0" { "1" } else { "0" });
        text_step(o, format!("parsing a corrupted address {k}"), &w, |s| check_address(s).map(|_| 2));
        text_step(o, format!("parsing a cut address {k}"), &t[..75], |s| check_address(s).map(|_| 2));
        step(o, format!("printing address {k}"), move || Address::new([k; 32]), |a| {
            let want = addr_text(&addr_bytes(a));
            if a.to_string() != want || jtext(a) != want {
                return bad(format!("the address {} is printed as {a}", hexs(&addr_bytes(a))));
            }
            Ok(3)
        });
        for f in 0..forms().len() {
            let form = &forms()[f];
            let t = format!("{}{}", form.prefix, hexs(&vec![k; form.len]));
            for (n, s) in [("", t.clone()), ("a corrupted ", format!("{}g", &t[..t.len() - 1]))] {
                o.push(Step { name: format!("parsing {n}{} {k}", form.name), run: Box::new(move |p| p.text(&s, |s| check_text(&forms()[f], s).map(|_| f as u64))) });
            }
            o.push(Step {
                name: format!("printing {} {k}", form.name),
                run: Box::new(move |_| {
                    let form = &forms()[f];
                    let want = format!("{}{}", form.prefix, hexs(&vec![k; form.len]));
                    for (how, t) in (form.show)(&vec![k; form.len]) {
                        if t != want {
                            return bad(format!("{}: {how} prints {t}, expected {want}", form.name));
                        }
                    }
                    Ok(k as u64)
                }),
            });
        }
    }
    for s in ["ed25519:0011", "ed25519:0022", "entropy:0011", "ed25519:0g", "0123456789abcdefg:00", "nothing"] {
        text_step(o, format!("parsing unlock key {s}"), s, |s| check_unlock_key(s).map(|_| 4));
    }
    for s in ["1 SC", "1 KS", "1.5 SC", "1.5 mS", "100", "1.5 XX", "999999999999 TS", "0.0000000000000000000000001 SC", "1 H"] {
        text_step(o, format!("parsing amount {s}"), s, |s| check_amount(s, true));
    }
}
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C08",
        level: MC,
        profiles: C,
        units: c08,
        rule: "21 byte patterns x 32 positions x 256 values printed and parsed in four letter cases; all values of each byte of address and checksum, all pairs of changed checksum bytes under 2x255 masks; every replaced, inserted, removed and exchanged character, wrapped text and every length - judged by a reference parser, as text and as JSON",
        assumptions: &[],
    },
    Prop {
        id: "C09",
        level: MC,
        profiles: C,
        units: c09,
        rule: "for every id type, signature, leaf and public key: byte patterns x every position x every value, printed and parsed; every replaced, inserted, removed, exchanged character and every length; unlock keys over all algorithm lengths; literal macros on literals with every digit at every position - judged by reference parsers",
        assumptions: &["left open: ids written with a 'prefix:'"],
    },
    Prop {
        id: "C10",
        level: MC,
        profiles: CW,
        units: c10,
        rule: "every string of up to five (thorough: six) characters over 16, every three characters after a number, every sequence of four tokens over 36, every boundary amount (powers of two and ten, multiples near the largest amount) in every unit with every kind of extra digits, every position of one non-zero digit in up to 44+44 digits, in both build profiles, judged by exact big-integer arithmetic",
        assumptions: &["left open: unusual white space, and hastings written with a decimal point (if accepted, the amount must be exact)"],
    },
];
