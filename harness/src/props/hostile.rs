//! C03, C04: hostile and malformed bytes.
use super::reg::*;
use super::*;
use crate::alloc::peak_of;
use crate::all_wires;
use crate::model::*;
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::*;

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Survive,
    Exact,
}

/// Memory a decoder may hold for `n` input bytes: a constant factor and a fixed allowance.
fn mem_bound(n: usize) -> usize {
    (512 * n as u64 + (8 << 20)).try_into().unwrap_or(usize::MAX)
}

fn eval<W: Wire>(j: Judge, b: &[u8]) -> Result<u64, String> {
    match j {
        Judge::Survive => {
            let (r, peak) = peak_of(|| {
                guarded(|| {
                    let mut r = b;
                    let ok = W::dec(&mut r).is_ok();
                    (ok, b.len() - r.len())
                })
            });
            match r {
                Err(p) => bad(format!("decoding {} panics: {p}", short(b))),
                Ok((ok, used)) => {
                    if peak > mem_bound(b.len()) {
                        return bad(format!("decoding {} ({} bytes) holds {peak} bytes of memory", short(b), b.len()));
                    }
                    Ok((ok as u64) << 32 | used as u64)
                }
            }
        }
        Judge::Exact => {
            let mut cur = Cur::new(b);
            let want = W::rdec(&mut cur);
            if cur.lenient {
                return Ok(0);
            }
            let mut r = b;
            let got = match guarded(|| W::dec(&mut r)) {
                Ok(g) => g,
                Err(p) => return bad(format!("decoding {} panics: {p}", short(b))),
            };
            let used = b.len() - r.len();
            match (want, got) {
                (Err(()), Err(_)) => Ok(1),
                (Ok(w), Ok(g)) => {
                    if w != g {
                        return bad(format!("{} denotes {} but is decoded as {}", short(b), dbg(&w), dbg(&g)));
                    }
                    if used != cur.pos {
                        return bad(format!("{}: the encoding has {} bytes but {used} were consumed", short(b), cur.pos));
                    }
                    Ok(2 + used as u64)
                }
                (Err(()), Ok(g)) => bad(format!("{} is not a valid encoding but is decoded as {}", short(b), dbg(&g))),
                (Ok(w), Err(e)) => bad(format!("{} denotes {} but is rejected: {e:?}", short(b), dbg(&w))),
            }
        }
    }
}

const BYTES: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xc3, 0xfe, 0xff];
const INTS: [u64; 22] = [
    0,
    1,
    2,
    3,
    16,
    17,
    255,
    256,
    257,
    65535,
    65536,
    1 << 31,
    1 << 32,
    (1 << 32) + 1,
    1 << 48,
    i64::MAX as u64,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
    TIME_MAX as u64 + 1,
    (TIME_MIN - 1) as u64,
    i32::MIN as i64 as u64,
];

fn mutations<W: Wire>(name: &str, s: Size, j: Judge) -> Unit {
    let (d, n) = match s {
        Size::Prim => (2, b(30_000)),
        Size::Small => (1, b(60_000)),
        Size::Big => (1, b(9_000)),
    };
    unit(format!("{name}/mutated"), d, n, move |c| {
        c.base();
        let v = <W::V as G>::g(c);
        let e = W::renc(&v);
        let class = c.free(5);
        let at = c.free(e.len() + 1);
        let mut h = hash_bytes(&e) ^ ((class as u64) << 60) ^ (at as u64) << 20;
        let mut buf = e.clone();
        match class {
            // truncation and extension
            0 => {
                c.evals += 1;
                h ^= eval::<W>(j, &e[..at])?;
            }
            // replaced byte
            1 if at < e.len() => {
                let o = e[at];
                for x in BYTES.iter().copied().chain([o ^ 1, o ^ 0x80, o.wrapping_add(1), o.wrapping_sub(1)]) {
                    if x == o {
                        continue;
                    }
                    buf[at] = x;
                    c.evals += 1;
                    h = h.rotate_left(7) ^ eval::<W>(j, &buf)?;
                }
            }
            // replaced integer, with and without the bytes after it
            2 if at + 8 <= e.len() => {
                let o = u64::from_le_bytes(e[at..at + 8].try_into().unwrap());
                for x in INTS.iter().copied().chain([o.wrapping_add(1), o.wrapping_sub(1), o | 1 << 32, o | 1 << 56, o | 1 << 63]) {
                    if x == o {
                        continue;
                    }
                    buf[at..at + 8].copy_from_slice(&x.to_le_bytes());
                    c.evals += 2;
                    h = h.rotate_left(7) ^ eval::<W>(j, &buf)?;
                    h = h.rotate_left(7) ^ eval::<W>(j, &buf[..at + 8])?;
                }
            }
            // inserted or removed byte, everything after it shifted
            3 => {
                for x in [0u8, 1, 0xff] {
                    let mut g = e.clone();
                    g.insert(at, x);
                    c.evals += 1;
                    h = h.rotate_left(7) ^ eval::<W>(j, &g)?;
                }
                if at < e.len() {
                    buf.remove(at);
                    c.evals += 1;
                    h = h.rotate_left(7) ^ eval::<W>(j, &buf)?;
                }
            }
            // resized field: a length and its payload changed together
            4 if at + 8 <= e.len() => {
                let o = u64::from_le_bytes(e[at..at + 8].try_into().unwrap());
                if o <= 64 && at + 8 + o as usize <= e.len() {
                    let o = o as usize;
                    let (old, rest) = e[at + 8..].split_at(o);
                    for n in (0..=20usize).chain([o + 1, 24, 32, 33, 64, 65]) {
                        for fill in 0..6u8 {
                            let mut p: Vec<u8> = match fill {
                                0 => vec![0; n],
                                1 => vec![1; n],
                                2 => vec![0xff; n],
                                // one bit in the first byte, the last byte
                                3 => (0..n).map(|i| (i == 0) as u8).collect(),
                                4 => [&vec![0; n.saturating_sub(o)], old].concat(),
                                _ => [old, &vec![0; n.saturating_sub(o)]].concat(),
                            };
                            p.truncate(n);
                            let mut g = e[..at].to_vec();
                            g.extend_from_slice(&(n as u64).to_le_bytes());
                            g.extend_from_slice(&p);
                            g.extend_from_slice(rest);
                            c.evals += 1;
                            h = h.rotate_left(7) ^ eval::<W>(j, &g)?;
                        }
                    }
                }
            }
            _ => {}
        }
        c.sample(|| format!("{} mutated at byte {at} (class {class})", short(&e)));
        Ok(h)
    })
}

/// All byte strings over an alphabet, up to a length.
fn short_strings<W: Wire>(name: &str, j: Judge) -> Unit {
    let deep = crate::thorough();
    unit(format!("{name}/short"), 0, u64::MAX, move |c| {
        let mut buf = [0u8; 16];
        let mut h = 0u64;
        if c.free(2) == 0 {
            // every string of at most two bytes
            let a = c.free(257);
            if a == 256 {
                c.evals += 1;
                return eval::<W>(j, &[]);
            }
            buf[0] = a as u8;
            h ^= eval::<W>(j, &buf[..1])?;
            for x in 0..=255u8 {
                buf[1] = x;
                h = h.rotate_left(5) ^ eval::<W>(j, &buf[..2])?;
                c.evals += 1;
            }
            return Ok(hash_bytes(&[a as u8]) ^ h);
        }
        // every longer string over a smaller alphabet
        const A: [u8; 8] = [0, 1, 2, 5, 7, 9, 0x80, 0xff];
        let i = c.free(8 * 8);
        buf[0] = A[i / 8];
        buf[1] = A[i % 8];
        let n = if deep { 6 } else { 4 };
        let max = 8usize.pow(n);
        for k in 0..max {
            let mut x = k;
            for q in 0..n as usize {
                buf[2 + q] = A[x % 8];
                x /= 8;
            }
            c.evals += 1;
            h = h.rotate_left(5) ^ eval::<W>(j, &buf[..2 + n as usize])?;
        }
        // and every nine-byte string made of a length and one byte
        for l in [0u64, 1, 2, 255, 256, 1 << 32, u64::MAX] {
            let mut g = l.to_le_bytes().to_vec();
            for x in 0..=255u8 {
                g.truncate(8);
                g.push(x);
                c.evals += 1;
                h = h.rotate_left(5) ^ eval::<W>(j, &g)?;
            }
        }
        Ok(h ^ i as u64)
    })
}

/// Encodings whose announced sizes are out of proportion to the bytes supplied:
/// a valid prefix, then nothing but one integer repeated.
fn bombs<W: Wire>(name: &str, s: Size, j: Judge) -> Unit {
    let n = if s == Size::Big { b(10_000) } else { b(20_000) };
    unit(format!("{name}/bomb"), 1, n, move |c| {
        c.base();
        let v = <W::V as G>::g(c);
        let e = W::renc(&v);
        let at = c.free(e.len() + 1);
        let mut h = hash_bytes(&e[..at]);
        for x in [1u64, 2, 300, 4096, 8192, 1 << 20, 1 << 40, i64::MAX as u64] {
            for reps in [1usize, 2, 5, 40] {
                let mut g = e[..at].to_vec();
                for _ in 0..reps {
                    g.extend_from_slice(&x.to_le_bytes());
                }
                c.evals += 1;
                h = h.rotate_left(7) ^ eval::<W>(j, &g)?;
            }
        }
        c.sample(|| format!("{} cut at byte {at} and continued with repeated integers", short(&e)));
        Ok(h)
    })
}

/// Policies nested and widened beyond what the decoder may follow.
fn policy_bombs(j: Judge) -> Unit {
    unit("v2/SpendPolicy/nesting", 0, u64::MAX, move |c| {
        let depths = [1usize, 2, 10, 100, 511, 1022, 1023, 1024, 1025, 2000, 10_000, 100_000, 1_000_000, 4_000_000];
        let depth = depths[c.free(depths.len())];
        let width = [1u8, 2, 3, 4, 16, 255][c.free(6)];
        let end = c.free(4);
        let wrap = c.free(3);
        let mut p = vec![1u8];
        for _ in 0..depth {
            p.extend_from_slice(&[5, 0, width]);
        }
        match end {
            0 => {}
            1 => p.extend_from_slice(&[5, 0, 0]),
            2 => {
                // complete the tree: the innermost threshold gets its leaves, the outer ones too
                let missing = if depth <= 1100 { depth * (width as usize - 1) + 1 } else { 1 };
                for _ in 0..missing {
                    p.push(1);
                    p.extend_from_slice(&[9; 8]);
                }
            }
            _ => p.extend_from_slice(&[6; 33]),
        }
        c.evals += 1;
        c.sample(|| format!("{depth} nested thresholds of {width} sub-policies, ending {end}, wrapped {wrap}"));
        let h = (depth as u64) << 16 | (width as u64) << 8 | (end * 4 + wrap) as u64;
        match wrap {
            0 => eval::<W2<v2::SpendPolicy>>(j, &p)?,
            1 => {
                p.extend_from_slice(&[0; 16]);
                eval::<W2<v2::SatisfiedPolicy>>(j, &p)?
            }
            _ => {
                // inside a transaction with one siacoin input
                let mut g = vec![2u8];
                g.extend_from_slice(&1u64.to_le_bytes());
                g.extend_from_slice(&1u64.to_le_bytes());
                let v: v2::SiacoinElement = <v2::SiacoinElement as G>::g(&mut Ctx::new(&[], false));
                v.e2(&mut g);
                g.extend_from_slice(&p);
                g.extend_from_slice(&[0; 16]);
                eval::<W2<v2::Transaction>>(j, &g)?
            }
        };
        Ok(h)
    })
}

/// Long but honest encodings: the memory bound must not depend on more than the input.
fn long_honest<W: Wire>(name: &str, s: Size, j: Judge) -> Option<Unit> {
    if s == Size::Prim || j != Judge::Survive {
        return None;
    }
    Some(unit(format!("{name}/repeated"), 1, 300, move |c| {
        c.base();
        let v = <W::V as G>::g(c);
        let e = W::renc(&v);
        let mut h = hash_bytes(&e);
        // a list of many copies, its length announced exactly, too large or too small
        let n = 3000usize.min(1 + (1 << 21) / e.len().max(1));
        let mut g = vec![];
        for announced in [n as u64, n as u64 + 1, 1 << 50, 1] {
            g.clear();
            g.extend_from_slice(&announced.to_le_bytes());
            for _ in 0..n {
                g.extend_from_slice(&e);
            }
            c.evals += 1;
            let (r, peak) = peak_of(|| guarded(|| {
                let mut r = &g[..];
                dec_list::<W>(&mut r)
            }));
            match r {
                Err(p) => return bad(format!("decoding {n} copies of {} announced as {announced} panics: {p}", short(&e))),
                Ok(ok) => {
                    if peak > mem_bound(g.len()) {
                        return bad(format!("decoding {n} copies of {} announced as {announced} holds {peak} bytes of memory for {} bytes", short(&e), g.len()));
                    }
                    h = h.rotate_left(3) ^ ok as u64;
                }
            }
        }
        Ok(h)
    }))
}
fn dec_list<W: Wire>(r: &mut &[u8]) -> bool {
    W::dec_list(r).is_ok()
}

fn units<W: Wire>(name: &str, s: Size, j: Judge) -> Vec<Unit> {
    let mut v = vec![mutations::<W>(name, s, j), short_strings::<W>(name, j), bombs::<W>(name, s, j)];
    v.extend(long_honest::<W>(name, s, j));
    v
}
fn c03_units<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    units::<W>(name, s, Judge::Survive)
}
fn c04_units<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    units::<W>(name, s, Judge::Exact)
}
pub fn c03() -> Vec<Unit> {
    let mut v = all_wires!(c03_units);
    v.push(policy_bombs(Judge::Survive));
    v
}
pub fn c04() -> Vec<Unit> {
    let mut v = all_wires!(c04_units);
    v.push(policy_bombs(Judge::Exact));
    v
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C03",
        level: MC,
        profiles: C,
        units: c03,
        rule: "for each type and codec: every truncation, replaced byte, replaced 8-byte integer, inserted and removed byte and length-with-payload change of every base value within the deviation bound; every byte string of at most two bytes and longer ones over a small alphabet; every valid prefix continued with repeated large integers; nested and widened policies; long lists - decoded with a counting allocator",
        assumptions: &["memory bound: 8 MiB + 512 bytes per input byte", "2 MiB stacks"],
    },
    Prop {
        id: "C04",
        level: MC,
        profiles: C,
        units: c04,
        rule: "the byte strings of C03, each judged by an independent reference decoder: same verdict, same value, same number of bytes consumed",
        assumptions: &["left open: v1 currencies with leading zeros, non-zero siafund claim starts, unknown presence bits and present-but-empty parts of v2 transactions"],
    },
];
