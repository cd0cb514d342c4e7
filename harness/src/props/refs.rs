//! Reference parsers of the text forms.
use crate::model::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    s.as_bytes().chunks_exact(2).map(|p| Some(v(p[0])? << 4 | v(p[1])?)).collect()
}
pub fn ref_address(s: &str) -> Option<[u8; 32]> {
    if s.len() != 76 {
        return None;
    }
    let b = unhex(s)?;
    let a: [u8; 32] = b[..32].try_into().unwrap();
    (blake(&[&a])[..6] == b[32..]).then_some(a)
}
pub fn ref_unlock_key(s: &str) -> Option<([u8; 16], Vec<u8>)> {
    let (p, k) = s.split_once(':')?;
    if p.len() > 16 {
        return None;
    }
    let mut a = [0; 16];
    a[..p.len()].copy_from_slice(p.as_bytes());
    Some((a, unhex(k)?))
}
pub const UNITS: [(&str, usize); 11] = [("", 0), ("H", 0), ("pS", 12), ("nS", 15), ("uS", 18), ("mS", 21), ("SC", 24), ("KS", 27), ("MS", 30), ("GS", 33), ("TS", 36)];

#[derive(Debug, PartialEq)]
pub enum Amount {
    Value(u128),
    Reject,
    /// may be refused; if accepted it must be this
    Open(u128),
}
pub fn ref_amount(s: &str) -> Amount {
    // digits [. digits] [space] [unit], the amount of hastings exact
    let core = s.trim();
    let odd_space = core.len() != s.len();
    let b = core.as_bytes();
    let n = b.iter().position(|c| !c.is_ascii_digit()).unwrap_or(b.len());
    if n == 0 {
        return Amount::Reject;
    }
    let mut i = n;
    let mut frac = "";
    let mut point = false;
    if b.get(i) == Some(&b'.') {
        point = true;
        let k = b[i + 1..].iter().position(|c| !c.is_ascii_digit()).unwrap_or(b.len() - i - 1);
        if k == 0 {
            return Amount::Reject;
        }
        frac = &core[i + 1..i + 1 + k];
        i += 1 + k;
    }
    let rest = &core[i..];
    let unit = rest.trim_start();
    let odd_space = odd_space || (rest.len() != unit.len() && !rest.strip_prefix(' ').is_some_and(|r| r == unit));
    let Some(&(_, p)) = UNITS.iter().find(|u| u.0 == unit) else {
        return Amount::Reject;
    };
    // scaled to hastings
    let mut digits = core[..n].to_string();
    let f = frac.trim_end_matches('0');
    if f.len() > p {
        return Amount::Reject;
    }
    digits.push_str(f);
    digits.extend(std::iter::repeat('0').take(p - f.len()));
    let d = digits.trim_start_matches('0');
    let v = if d.is_empty() {
        BigUint::zero()
    } else if d.len() > 60 {
        return Amount::Reject;
    } else {
        BigUint::parse_bytes(d.as_bytes(), 10).unwrap()
    };
    match v.to_u128() {
        None => Amount::Reject,
        // hastings are whole numbers; a point in them is not part of the format
        Some(v) if odd_space || (point && p == 0) => Amount::Open(v),
        Some(v) => Amount::Value(v),
    }
}
