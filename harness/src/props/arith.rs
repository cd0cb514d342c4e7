//! C11: currency arithmetic, in checked and in wrapping builds.
use super::*;
use crate::model::*;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use sia::types::Currency;
use std::cmp::Ordering;

fn operands() -> Vec<u128> {
    let mut v: Vec<u128> = vec![0, 1, 2, 3, 7, 10, u128::MAX, u128::MAX - 1, u128::MAX / 2, u128::MAX / 2 + 1, u128::MAX / 3, u64::MAX as u128, u64::MAX as u128 + 1, u64::MAX as u128 - 1, u64::MAX as u128 + 2];
    for k in [8u32, 16, 31, 32, 33, 62, 63, 64, 65, 96, 100, 120, 126, 127] {
        v.extend([(1u128 << k) - 1, 1u128 << k, (1u128 << k) + 1]);
    }
    for k in [3u32, 6, 12, 18, 19, 20, 24, 27, 36, 38] {
        let p = 10u128.pow(k);
        v.extend([p - 1, p, p + 1, u128::MAX / p, u128::MAX / p + 1, p * 3]);
    }
    // around the square root of the largest
    v.extend([18446744073709551615, 18446744073709551616, 18446744073709551617, 0x1234_5678_9abc_def0_0fed_cba9_8765_4321]);
    v.sort();
    v.dedup();
    v
}
fn cur(x: u128) -> Currency {
    Currency::new(x)
}
fn one_op(name: &str, a: u128, b: u128, want: Option<u128>, op: impl Fn() -> Currency, checked: Option<Option<Currency>>) -> Result<(), String> {
    let got = guarded(op).ok();
    if got.map(|g| cur_u128(&g)) != want {
        return bad(match (got, want) {
            (Some(g), Some(w)) => format!("{a} {name} {b} is {}, expected {w}", cur_u128(&g)),
            (Some(g), None) => format!("{a} {name} {b} is {} although the result does not exist", cur_u128(&g)),
            (None, Some(w)) => format!("{a} {name} {b} panics, expected {w}"),
            _ => unreachable!(),
        });
    }
    if let Some(c) = checked {
        if c.map(|g| cur_u128(&g)) != want {
            return bad(format!("checked {a} {name} {b} is {c:?}, expected {want:?}"));
        }
    }
    Ok(())
}
fn pair(a: u128, b: u128) -> Result<(), String> {
    let (x, y) = (BigUint::from(a), BigUint::from(b));
    let (ca, cb) = (cur(a), cur(b));
    let chk = |f: &dyn Fn() -> Option<Currency>| guarded(f).map_err(|p| format!("a checked operation on {a} and {b} panics: {p}"));
    one_op("+", a, b, (&x + &y).to_u128(), || ca + cb, Some(chk(&|| ca.checked_add(cb))?))?;
    one_op("-", a, b, (x >= y).then(|| (&x - &y).to_u128().unwrap()), || ca - cb, Some(chk(&|| ca.checked_sub(cb))?))?;
    one_op("*", a, b, (&x * &y).to_u128(), || ca * cb, Some(chk(&|| ca.checked_mul(cb))?))?;
    one_op("/", a, b, (!y.is_zero()).then(|| (&x / &y).to_u128().unwrap()), || ca / cb, Some(chk(&|| ca.checked_div(cb))?))?;
    one_op("%", a, b, (!y.is_zero()).then(|| (&x % &y).to_u128().unwrap()), || ca % cb, None)?;
    if ca.cmp(&cb) != x.cmp(&y) || ca.partial_cmp(&cb) != Some(x.cmp(&y)) || (ca == cb) != (x == y) || (ca < cb) != (x < y) || (ca >= cb) != (x >= y) {
        return bad(format!("{a} and {b} are compared wrongly"));
    }
    if x.cmp(&y) == Ordering::Greater && (ca.max(cb) != ca || ca.min(cb) != cb) {
        return bad(format!("wrong maximum of {a} and {b}"));
    }
    Ok(())
}
fn sums(v: &[u128]) -> Result<(), String> {
    let want: BigUint = v.iter().map(|x| BigUint::from(*x)).sum();
    let got = guarded(|| v.iter().map(|x| cur(*x)).sum::<Currency>()).ok().map(|c| cur_u128(&c));
    if got != want.to_u128() {
        return bad(format!("the sum of {v:?} is {got:?}, expected {want}"));
    }
    Ok(())
}
fn conversions(a: u128) -> Result<(), String> {
    let got: Result<u64, _> = cur(a).try_into();
    if got.ok() != u64::try_from(a).ok() {
        return bad(format!("{a} as a 64-bit integer"));
    }
    if cur_u128(&cur(a)) != a || *cur(a) != a || cur(a).to_string() != a.to_string() {
        return bad(format!("{a} is not kept"));
    }
    if cur_u128(&Currency::zero()) != 0 || cur_u128(&Currency::default()) != 0 {
        return bad("zero is not zero");
    }
    let n = a as u64;
    for n in [n, (a >> 64) as u64] {
        let want = (BigUint::from(n) * BigUint::from(10u8).pow(24)).to_u128();
        let got = guarded(|| Currency::siacoins(n)).ok().map(|c| cur_u128(&c));
        if got != want {
            return bad(format!("{n} siacoins are {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}
pub fn c11() -> Vec<Unit> {
    vec![
        unit("pairs", 0, u64::MAX, |c| {
            let v = operands();
            let a = v[c.free(v.len())];
            for &b in &v {
                pair(a, b)?;
                c.evals += 6;
            }
            // operands at the exact edge of overflow for this one
            let mut near = vec![u128::MAX - a];
            if a > 0 {
                near.push(u128::MAX / a);
            }
            for m in near {
                for b in [m.wrapping_sub(1), m, m.wrapping_add(1)] {
                    pair(a, b)?;
                    pair(b, a)?;
                    c.evals += 12;
                }
            }
            for b in [a.wrapping_sub(1), a.wrapping_add(1), a] {
                pair(a, b)?;
                pair(b, a)?;
                c.evals += 12;
            }
            conversions(a)?;
            c.sample(|| format!("{a} against {} operands", v.len()));
            Ok(a as u64 ^ (a >> 64) as u64)
        }),
        unit("small", 0, u64::MAX, |c| {
            let a = c.free(400) as u128;
            for b in 0..400u128 {
                pair(a, b)?;
                pair(u128::MAX - a, b)?;
                pair(u128::MAX - a, u128::MAX - b)?;
                pair(a << 64, b)?;
                pair(a << 64, b << 63)?;
                c.evals += 30;
            }
            Ok(a as u64)
        }),
        unit("sums", 0, u64::MAX, |c| {
            let v = operands();
            let k = c.free(v.len());
            let a = v[k];
            sums(&[])?;
            sums(&[a])?;
            for &b in &v {
                sums(&[a, b])?;
                c.evals += 1;
                for &d in v.iter().step_by(3) {
                    sums(&[a, b, d])?;
                    sums(&[d, a, 0, b])?;
                    c.evals += 2;
                }
            }
            for n in [5usize, 100, 1000] {
                sums(&vec![a; n])?;
            }
            Ok(a as u64 ^ (a >> 64) as u64)
        }),
        unit("siacoins", 0, u64::MAX, |c| {
            // around the largest number of siacoins that fits, and everywhere else
            let edge = (u128::MAX / 10u128.pow(24)) as u64;
            let base = [0, edge - 300, 1 << 32, u64::MAX - 599, 1 << 63, 1 << 48][c.free(6)];
            for i in 0..600u64 {
                conversions((base + i) as u128)?;
                c.evals += 3;
            }
            Ok(base)
        }),
    ]
}

#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    for (a, b) in [(7u128, 3u128), (u128::MAX, 1), (1 << 64, 1 << 64), (10, 0)] {
        o.push(Step { name: format!("arithmetic of {a} and {b}"), run: Box::new(move |_| pair(a, b).map(|_| a as u64)) });
    }
    for v in [[1u128, 2, 3], [u128::MAX, 1, 0]] {
        o.push(Step { name: format!("the sum of {v:?}"), run: Box::new(move |_| sums(&v).map(|_| 1)) });
    }
    o.push(Step { name: "conversions".into(), run: Box::new(|_| conversions(1 << 100 | 5).map(|_| 2)) });
}
pub const PROPS: &[Prop] = &[Prop {
    id: "C11",
    level: MC,
    profiles: CW,
    units: c11,
    rule: "all pairs of boundary operands (powers of two and ten, their neighbours, square root and quotients of the largest amount) and, for each, the operands at the exact edge of overflow; all pairs of small, large and mixed operands; sums of up to four; conversions - in checked and wrapping builds, against big integers",
    assumptions: &[],
}];
