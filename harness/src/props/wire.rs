//! C01, C02: round trips and the wire format.
use super::reg::*;
use super::*;
use crate::all_wires;
use crate::model::*;
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::*;

pub fn budget(s: Size) -> (u32, u64) {
    match s {
        Size::Prim => (4, b(100_000)),
        Size::Small => (3, b(800_000)),
        Size::Big => (3, b(2_000_000)),
    }
}

/// An encoding may have this many bytes in the units with long lists.
pub fn cap() -> usize {
    if crate::thorough() {
        8 << 20
    } else {
        300 << 10
    }
}
fn c01_body<W: Wire>(c: &mut Ctx, v: W::V) -> Res {
    let mut e = vec![];
    if let Err(x) = W::enc(&v, &mut e) {
        return bad(format!("encoding fails with {x:?}: {}", dbg(&v)));
    }
    c.sample(|| format!("{} -> {}", dbg(&v), short(&e)));
    // nothing follows / something follows: all ones, and another copy of itself
    for tail in 0..3 {
        let mut buf = e.clone();
        match tail {
            0 => {}
            1 => buf.extend_from_slice(&[0xff; 17]),
            _ => buf.extend_from_slice(&e),
        }
        let mut r = &buf[..];
        let d = match W::dec(&mut r) {
            Ok(d) => d,
            Err(x) => return bad(format!("decoding {} fails with {x:?} (tail {tail}): {}", short(&e), dbg(&v))),
        };
        let used = buf.len() - r.len();
        if used != e.len() {
            return bad(format!("decoding consumed {used} of {} bytes (tail {tail}): {}", e.len(), dbg(&v)));
        }
        if d != v {
            return bad(format!("decoded value differs: {} became {}", dbg(&v), dbg(&d)));
        }
        if tail == 0 {
            let mut e2 = vec![];
            if let Err(x) = W::enc(&d, &mut e2) {
                return bad(format!("re-encoding fails with {x:?}: {}", dbg(&d)));
            }
            if e2 != e {
                return bad(format!("re-encoding differs: {} became {}", short(&e), short(&e2)));
            }
        }
    }
    Ok(hash_bytes(&e))
}
fn c01_unit<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    let (d, n) = budget(s);
    let mut u = vec![unit(name, d, n, |c| {
        c.base();
        let v = <W::V as G>::g(c);
        c01_body::<W>(c, v)
    })];
    let cs = long_cases_of(<W::V as G>::g, |v| W::renc(v).len(), cap(), cap().max(2 << 20));
    if !cs.is_empty() {
        u.push(unit(format!("long/{name}"), 0, u64::MAX, move |c| {
            let v = long_choice(c, <W::V as G>::g, &cs);
            c01_body::<W>(c, v)
        }));
    }
    u
}
pub fn c01() -> Vec<Unit> {
    all_wires!(c01_unit)
}

fn c02_body<W: Wire>(c: &mut Ctx, v: W::V) -> Res {
    let want = W::renc(&v);
    let mut e = vec![];
    if let Err(x) = W::enc(&v, &mut e) {
        return bad(format!("encoding fails with {x:?}: {}", dbg(&v)));
    }
    if e != want {
        return bad(format!("encoding of {} is {}, the wire format says {}", dbg(&v), short(&e), short(&want)));
    }
    c.sample(|| format!("{} -> {}", dbg(&v), short(&e)));
    let mut r = &want[..];
    match W::dec(&mut r) {
        Ok(d) if d == v && r.is_empty() => {}
        Ok(d) => return bad(format!("{} is decoded as {}, it denotes {}", short(&want), dbg(&d), dbg(&v))),
        Err(x) => return bad(format!("{} is rejected with {x:?}, it denotes {}", short(&want), dbg(&v))),
    }
    // the model against itself: the reference decoder inverts the reference encoder
    let mut cur = Cur::new(&want);
    match W::rdec(&mut cur) {
        Ok(m) if m == v && cur.left() == 0 => {}
        _ => return bad(format!("the reference decoder does not invert the reference encoder on {}", dbg(&v))),
    }
    Ok(hash_bytes(&e))
}
fn c02_unit<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    let (d, n) = budget(s);
    let mut u = vec![unit(name, d, n, |c| {
        c.base();
        let v = <W::V as G>::g(c);
        c02_body::<W>(c, v)
    })];
    let cs = long_cases_of(<W::V as G>::g, |v| W::renc(v).len(), cap(), cap().max(2 << 20));
    if !cs.is_empty() {
        u.push(unit(format!("long/{name}"), 0, u64::MAX, move |c| {
            let v = long_choice(c, <W::V as G>::g, &cs);
            c02_body::<W>(c, v)
        }));
    }
    let n = if s == Size::Big { b(20_000) } else { b(4_000) };
    u.push(unit(format!("in place/{name}"), 2, n, |c| {
        let ops: [Op<W::V>; 2] = [("encoding", c02_encode::<W>), ("decoding", c02_decode::<W>)];
        in_place(c, <W::V as G>::g, &[replace], &ops)
    }));
    u
}
fn c02_encode<W: Wire>(v: &W::V) -> Result<u64, String> {
    let mut e = vec![];
    W::enc(v, &mut e).map_err(|x| format!("encoding fails with {x:?}: {}", dbg(v)))?;
    let want = W::renc(v);
    if e != want {
        return bad(format!("encoding of {} is {}, the wire format says {}", dbg(v), short(&e), short(&want)));
    }
    Ok(hash_bytes(&e))
}
fn c02_decode<W: Wire>(v: &W::V) -> Result<u64, String> {
    // from a place that does not move either
    let mut place = vec![0u8; 8192];
    let e = W::renc(v);
    let at = if e.len() <= place.len() {
        place[..e.len()].copy_from_slice(&e);
        &place[..e.len()]
    } else {
        &e[..]
    };
    let mut r = at;
    match W::dec(&mut r) {
        Ok(d) if d == *v && r.is_empty() => Ok(hash_bytes(&e)),
        Ok(d) => bad(format!("{} is decoded as {}, it denotes {}", short(&e), dbg(&d), dbg(v))),
        Err(x) => bad(format!("{} is rejected with {x:?}, it denotes {}", short(&e), dbg(v))),
    }
}
pub fn c02() -> Vec<Unit> {
    all_wires!(c02_unit)
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: MC,
        profiles: C,
        units: c01,
        rule: "for each type and codec: every value reachable with at most `deviation_bound` deviations from three base values (all-zero/empty, dense with one element per list, dense with two), and every variable-length part of the dense value at each length around 2^4..2^20; each encoded by the real encoder, decoded from the bytes followed by a sentinel, compared and re-encoded",
        assumptions: &["encoders and decoders are deterministic"],
    },
    Prop {
        id: "C02",
        level: MC,
        profiles: C,
        units: c02,
        rule: "the same value spaces as C01; the real encoding is compared byte for byte with an independent reference encoder, and the reference bytes are decoded by the real decoder",
        assumptions: &["the reference encoders in harness/src/model.rs are the Sia wire format"],
    },
];
