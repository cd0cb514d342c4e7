//! C26: derived codecs over all small struct shapes.
use super::*;
use crate::model::{Cur, D1, D2, E1, E2, G};
use sia::encoding::{self, SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable, V1SiaEncode};
use sia::types::Currency;
use std::cell::Cell;
use std::fmt::Debug;
use std::io::{Read, Write};

#[path = "derive_gen.rs"]
mod shapes_gen;

/// A writer with room for some bytes only.
struct Room<'a>(&'a mut Vec<u8>, usize);
impl Write for Room<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// One struct shape, its type erased (so that hundreds of shapes compile quickly).
pub trait Obj {
    fn refs(&self) -> (Vec<u8>, Vec<u8>);
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()>;
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()>;
    /// decode and compare: the value read is equal to self
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool>;
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool>;
    fn text(&self) -> String;
}
type Make = fn(&mut Ctx) -> Box<dyn Obj>;

fn writes(what: &str, v: &dyn Obj, want: &[u8], enc: &dyn Fn(&dyn Obj, &mut &mut dyn Write) -> encoding::Result<()>) -> Result<u64, String> {
    let mut n = 0;
    for room in (0..=want.len() + 3).rev() {
        n += 1;
        let mut buf = vec![];
        let r = enc(v, &mut (&mut Room(&mut buf, room) as &mut dyn Write));
        if room >= want.len() {
            if r.is_err() || buf != want {
                return bad(format!("{what}: encoding {} gives {} ({r:?}), the fields in order are {}", v.text(), short(&buf), short(want)));
            }
        } else if r.is_ok() {
            return bad(format!("{what}: encoding {} succeeds although only {room} of {} bytes can be written", v.text(), want.len()));
        } else if !want.starts_with(&buf) {
            return bad(format!("{what}: encoding {} wrote {} before failing, not a prefix of {}", v.text(), short(&buf), short(want)));
        }
    }
    Ok(n)
}
fn reads(what: &str, v: &dyn Obj, want: &[u8], dec: &dyn Fn(&dyn Obj, &mut &mut dyn Read) -> encoding::Result<bool>) -> Result<u64, String> {
    let mut n = 1;
    let mut buf = want.to_vec();
    buf.extend_from_slice(&[0xff; 9]);
    let mut r = &buf[..];
    match dec(v, &mut (&mut r as &mut dyn Read)) {
        Ok(true) if r.len() == 9 => {}
        Ok(eq) => return bad(format!("{what}: {} denotes {}; decoding it yields an equal value: {eq}, and leaves {} of 9 bytes", short(want), v.text(), r.len())),
        Err(e) => return bad(format!("{what}: decoding {} fails with {e:?}", short(want))),
    }
    for k in 0..want.len() {
        n += 1;
        let mut r = &want[..k];
        if dec(v, &mut (&mut r as &mut dyn Read)).is_ok() {
            return bad(format!("{what}: the first {k} of {} bytes of {} are decoded", want.len(), v.text()));
        }
    }
    Ok(n)
}

fn body(name: &str, make: Make, v2_decodes: bool) -> Unit {
    unit(name, 2, b(3000), move |c| {
        c.base();
        c.rich = false;
        let v = make(c);
        let (w1, w2) = v.refs();
        c.evals += writes("v1", &*v, &w1, &|v, w| v.enc1(w))?;
        c.evals += reads("v1", &*v, &w1, &|v, r| v.dec1(r))?;
        c.evals += writes("v2", &*v, &w2, &|v, w| v.enc2(w))?;
        if v2_decodes {
            c.evals += reads("v2", &*v, &w2, &|v, r| v.dec2(r))?;
        }
        c.sample(|| format!("{} -> {}", v.text(), short(&w2)));
        Ok(hash_bytes(&w1) ^ hash_bytes(&w2).rotate_left(1))
    })
}

// ---------------------------------------------------------------- probes

thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static FAIL: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Encodes as its number (a byte, or nothing for odd numbers); the n-th call fails on demand.
#[derive(Debug, PartialEq, Clone)]
pub struct Probe(u8);
fn call() -> encoding::Result<usize> {
    let i = CALLS.get();
    CALLS.set(i + 1);
    if i == FAIL.get() {
        return Err(std::io::Error::other("probe").into());
    }
    Ok(i)
}
fn probe_bytes(i: u8, o: &mut Vec<u8>) {
    if i % 3 != 1 {
        o.push(0x80 | i);
    }
}
impl Probe {
    fn put<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        call()?;
        let mut o = vec![];
        probe_bytes(self.0, &mut o);
        Ok(w.write_all(&o)?)
    }
    fn get<R: Read>(r: &mut R) -> encoding::Result<Self> {
        let i = call()? as u8;
        let mut o = vec![];
        probe_bytes(i, &mut o);
        let mut have = vec![0; o.len()];
        r.read_exact(&mut have)?;
        Ok(Probe(if have == o { i } else { 255 }))
    }
}
impl SiaEncodable for Probe {
    fn encode<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.put(w)
    }
}
impl V1SiaEncodable for Probe {
    fn encode_v1<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.put(w)
    }
}
impl SiaDecodable for Probe {
    fn decode<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Self::get(r)
    }
}
impl V1SiaDecodable for Probe {
    fn decode_v1<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Self::get(r)
    }
}
impl G for Probe {
    fn g(c: &mut Ctx) -> Self {
        c.ctr += 1;
        Probe(c.ctr as u8 - 1)
    }
}
impl E1 for Probe {
    fn e1(&self, o: &mut Vec<u8>) {
        probe_bytes(self.0, o)
    }
}
impl E2 for Probe {
    fn e2(&self, o: &mut Vec<u8>) {
        probe_bytes(self.0, o)
    }
}

fn probed(name: &str, make: Make, w: usize) -> Unit {
    unit(name, 0, 1 << 20, move |c| {
        // which operation, and which field (if any) fails
        let op = c.free(4);
        let fail = c.free(w + 1);
        let v = make(c);
        let (want, _) = v.refs();
        CALLS.set(0);
        FAIL.set(if fail == w { usize::MAX } else { fail });
        let mut buf = vec![];
        let mut rd = &want[..];
        let (what, r) = match op {
            0 => ("v1 encoding", v.enc1(&mut (&mut buf as &mut dyn Write)).map(|_| true)),
            1 => ("v2 encoding", v.enc2(&mut (&mut buf as &mut dyn Write)).map(|_| true)),
            2 => ("v1 decoding", v.dec1(&mut (&mut rd as &mut dyn Read))),
            _ => ("v2 decoding", v.dec2(&mut (&mut rd as &mut dyn Read))),
        };
        FAIL.set(usize::MAX);
        if fail < w {
            if r.is_ok() {
                return bad(format!("{what} of {w} fields succeeds although field {fail} fails"));
            }
            return Ok((op * 100 + fail) as u64);
        }
        let fits = if op < 2 { buf == want } else { rd.is_empty() };
        if !matches!(r, Ok(true)) || !fits {
            return bad(format!("{what} of {} with encoding {} gives {r:?} {}", v.text(), short(&want), short(&buf)));
        }
        if CALLS.get() != w {
            return bad(format!("{what} visits {} fields of {w}", CALLS.get()));
        }
        Ok((op * 100 + fail) as u64)
    })
}

pub fn c26() -> Vec<Unit> {
    let mut v = vec![];
    shapes_gen::shapes(&mut v);
    v
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C26",
    level: MC,
    profiles: C,
    units: c26,
    rule: "every struct shape with up to 3 fields over 5 field types (named, tuple, unit), every public/private pattern of up to 3 named fields, wide shapes up to 33 fields, odd field names and type paths; for each shape every value with at most `deviation_bound` deviations from the base values is encoded by the derived codecs into writers with every amount of room and decoded from every prefix of the concatenated reference encodings of its fields; structs of probes enumerate which field fails",
    assumptions: &["generic structs and enums are not supported by the macros and not judged", "restricted visibility (pub(crate)) of named fields is not judged"],
}];
