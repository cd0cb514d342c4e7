//! C05: readers and writers that split, interrupt and fail.
use super::reg::*;
use super::*;
use crate::all_wires;
use crate::model::*;
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::*;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// one call fails at this byte position, then the stream works again
    Interrupt(usize),
    /// every call fails once before it succeeds
    InterruptAlways,
    Fail(usize, ErrorKind),
    /// one call fails for good at this position, but the stream would work again
    Once(usize, ErrorKind),
    /// end of file (reader) / accepts nothing more (writer) at this position
    Zero(usize),
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    /// most bytes per call
    chunk: usize,
    /// a call never crosses this position
    split: usize,
    fault: Fault,
}
struct Stream<'a> {
    src: &'a [u8],
    pos: usize,
    plan: Plan,
    fired: bool,
    out: Vec<u8>,
    calls: u64,
}
impl<'a> Stream<'a> {
    fn new(src: &'a [u8], plan: Plan) -> Self {
        Stream {
            src,
            pos: 0,
            plan,
            fired: false,
            out: vec![],
            calls: 0,
        }
    }
    /// how many of n bytes this call transfers
    fn step(&mut self, n: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 10_000_000 {
            panic!("the codec keeps calling the stream");
        }
        if n == 0 {
            return Ok(0);
        }
        let mut k = n.min(self.plan.chunk);
        if self.pos < self.plan.split {
            k = k.min(self.plan.split - self.pos);
        }
        match self.plan.fault {
            Fault::None => {}
            Fault::InterruptAlways => {
                self.fired = !self.fired;
                if self.fired {
                    return Err(ErrorKind::Interrupted.into());
                }
            }
            Fault::Interrupt(p) => {
                if self.pos == p && !self.fired {
                    self.fired = true;
                    return Err(ErrorKind::Interrupted.into());
                }
                if self.pos < p {
                    k = k.min(p - self.pos);
                }
            }
            Fault::Fail(p, e) => {
                if self.pos == p {
                    self.fired = true;
                    return Err(e.into());
                }
                k = k.min(p - self.pos);
            }
            Fault::Once(p, e) => {
                if self.pos == p && !self.fired {
                    self.fired = true;
                    return Err(e.into());
                }
                if self.pos < p {
                    k = k.min(p - self.pos);
                }
            }
            Fault::Zero(p) => {
                if self.pos == p {
                    self.fired = true;
                    return Ok(0);
                }
                k = k.min(p - self.pos);
            }
        }
        Ok(k)
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.step(buf.len())?.min(self.src.len() - self.pos);
        buf[..k].copy_from_slice(&self.src[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.step(buf.len())?;
        self.out.extend_from_slice(&buf[..k]);
        self.pos += k;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const NOSPLIT: usize = usize::MAX;
/// All plans for a stream of n bytes.
fn plan(c: &mut Ctx, n: usize) -> Plan {
    let chunks: [usize; 15] = [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 4096];
    let big = usize::MAX;
    match c.free(7) {
        0 => Plan {
            chunk: chunks[c.free(chunks.len())],
            split: NOSPLIT,
            fault: if c.free(2) == 0 { Fault::None } else { Fault::InterruptAlways },
        },
        1 => Plan {
            chunk: big,
            split: c.free(n + 1),
            fault: Fault::None,
        },
        2 => Plan {
            chunk: big,
            split: NOSPLIT,
            fault: Fault::Interrupt(c.free(n + 1)),
        },
        3 => {
            let kinds = [
                ErrorKind::Other,
                ErrorKind::WouldBlock,
                ErrorKind::TimedOut,
                ErrorKind::BrokenPipe,
                ErrorKind::UnexpectedEof,
                ErrorKind::InvalidData,
                ErrorKind::ConnectionReset,
                ErrorKind::WriteZero,
            ];
            let k = kinds[c.free(kinds.len())];
            Plan {
                chunk: big,
                split: NOSPLIT,
                fault: Fault::Fail(c.free(n + 1), k),
            }
        }
        4 => Plan {
            chunk: 1,
            split: NOSPLIT,
            fault: Fault::Fail(c.free(n + 1), ErrorKind::Other),
        },
        5 => Plan {
            chunk: [big, 3][c.free(2)],
            split: NOSPLIT,
            fault: Fault::Zero(c.free(n + 1)),
        },
        _ => Plan {
            chunk: big,
            split: NOSPLIT,
            fault: Fault::Once(c.free(n + 1), [ErrorKind::Other, ErrorKind::WouldBlock][c.free(2)]),
        },
    }
}
/// The position at which the plan must make the operation fail, if any.
fn fails(p: &Plan, n: usize) -> bool {
    match p.fault {
        Fault::Fail(at, _) | Fault::Once(at, _) | Fault::Zero(at) => at < n,
        _ => false,
    }
}

fn budget(s: Size) -> (u32, u64) {
    match s {
        Size::Prim => (2, b(40_000)),
        Size::Small => (1, b(300_000)),
        Size::Big => (1, b(200_000)),
    }
}

fn read_unit<W: Wire>(name: &str, s: Size) -> Unit {
    let (d, n) = budget(s);
    unit(format!("{name}/read"), d, n, |c| {
        c.base();
        let v = <W::V as G>::g(c);
        let n = W::renc(&v).len();
        let p = plan(c, n);
        read_body::<W>(c, v, p)
    })
}
fn read_body<W: Wire>(c: &mut Ctx, v: W::V, p: Plan) -> Res {
        let e = W::renc(&v);
        let mut src = e.clone();
        src.extend_from_slice(&[0x01; 70]); // bytes of whatever comes next
        let mut st = Stream::new(&src, p);
        c.evals += 1;
        c.sample(|| format!("{} read with {p:?}", short(&e)));
        let r = match guarded(|| W::dec(&mut st)) {
            Ok(r) => r,
            Err(m) => return bad(format!("reading {} with {p:?} panics: {m}", dbg(&v))),
        };
        if st.pos > e.len() {
            return bad(format!("reading {} took {} bytes from the stream, the encoding has {}", dbg(&v), st.pos, e.len()));
        }
        match (fails(&p, e.len()), r) {
            (true, Ok(_)) => bad(format!("reading {} succeeds despite {p:?}", dbg(&v))),
            (true, Err(_)) => Ok(hash_bytes(&e) ^ hash_bytes(format!("{p:?}").as_bytes())),
            (false, Err(x)) => bad(format!("reading {} with {p:?} fails: {x:?}", dbg(&v))),
            (false, Ok(w)) => {
                if w != v {
                    return bad(format!("reading {} with {p:?} gives {}", dbg(&v), dbg(&w)));
                }
                if st.pos != e.len() {
                    return bad(format!("reading {} took only {} of {} bytes", dbg(&v), st.pos, e.len()));
                }
                Ok(hash_bytes(&e) ^ hash_bytes(format!("{p:?}").as_bytes()))
            }
        }
}

fn judge_write(
    what: &dyn Fn() -> String,
    e: &[u8],
    p: Plan,
    f: &mut dyn FnMut(&mut Stream) -> sia::encoding::Result<()>,
) -> Res {
    let mut st = Stream::new(&[], p);
    let r = match guarded(|| f(&mut st)) {
        Ok(r) => r,
        Err(m) => return bad(format!("writing {} with {p:?} panics: {m}", what())),
    };
    if !e.starts_with(&st.out) {
        return bad(format!("writing {} with {p:?} wrote {}, not a prefix of {}", what(), short(&st.out), short(e)));
    }
    match (fails(&p, e.len()), r) {
        (true, Ok(())) => bad(format!("writing {} succeeds despite {p:?}", what())),
        (false, Err(x)) => bad(format!("writing {} with {p:?} fails: {x:?}", what())),
        (false, Ok(())) if st.out.len() != e.len() => {
            bad(format!("writing {} with {p:?} wrote {} of {} bytes", what(), st.out.len(), e.len()))
        }
        _ => Ok(hash_bytes(e) ^ hash_bytes(format!("{p:?}").as_bytes()) ^ 1),
    }
}

fn write_unit<W: Wire>(name: &str, s: Size) -> Unit {
    let (d, n) = budget(s);
    unit(format!("{name}/write"), d, n, |c| {
        c.base();
        let v = <W::V as G>::g(c);
        let e = W::renc(&v);
        let p = plan(c, e.len());
        c.evals += 1;
        c.sample(|| format!("{} written with {p:?}", short(&e)));
        judge_write(&|| dbg(&v), &e, p, &mut |w| W::enc(&v, w))
    })
}
fn c05_units<W: Wire>(name: &str, s: Size) -> Vec<Unit> {
    vec![read_unit::<W>(name, s), write_unit::<W>(name, s)]
}
/// Plans for streams of up to a megabyte: positions around powers of two, multiples of 4096 and both ends.
fn long_plan(c: &mut Ctx, n: usize) -> Plan {
    let mut at: Vec<usize> = vec![];
    for k in 0..=21 {
        at.push(1usize << k);
        at.push(3usize << k);
    }
    at.extend([4096 * 3, 4096 * 5, n / 2]);
    let mut pos = vec![];
    for a in at {
        for d in [0isize, -1, 1, 7, 8, 9] {
            pos.push((a as isize + d).max(0) as usize);
        }
    }
    for d in 0..10 {
        pos.push(n.saturating_sub(d));
    }
    pos.retain(|&p| p <= n);
    pos.sort();
    pos.dedup();
    let big = usize::MAX;
    match c.free(6) {
        0 => {
            let chunks: [usize; 20] = [1, 7, 8, 9, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 1 << 17, 1 << 20];
            Plan {
                chunk: chunks[c.free(chunks.len())],
                split: NOSPLIT,
                fault: if c.free(2) == 0 { Fault::None } else { Fault::InterruptAlways },
            }
        }
        1 => Plan {
            chunk: big,
            split: pos[c.free(pos.len())],
            fault: Fault::None,
        },
        2 => Plan {
            chunk: [big, 4096][c.free(2)],
            split: NOSPLIT,
            fault: Fault::Interrupt(pos[c.free(pos.len())]),
        },
        3 => Plan {
            chunk: [big, 4096][c.free(2)],
            split: NOSPLIT,
            fault: Fault::Fail(pos[c.free(pos.len())], ErrorKind::Other),
        },
        4 => Plan {
            chunk: [big, 4096][c.free(2)],
            split: NOSPLIT,
            fault: Fault::Zero(pos[c.free(pos.len())]),
        },
        _ => Plan {
            chunk: [big, 4096][c.free(2)],
            split: NOSPLIT,
            fault: Fault::Once(pos[c.free(pos.len())], ErrorKind::Other),
        },
    }
}
fn long_units<W: Wire>(name: &str) -> Vec<Unit> {
    let cs: Vec<(usize, usize)> = super::wire_cases::<W>(if crate::thorough() { 2 << 20 } else { 70 << 10 })
        .into_iter()
        .filter(|&(i, n)| crate::thorough() || i == 0 && matches!(n, 4095 | 4096 | 4097 | 8193 | 65536 | 65537) || matches!(n, 512 | 4097))
        .collect();
    let cs2 = cs.clone();
    vec![
        unit(format!("long/{name}/read"), 0, u64::MAX, move |c| {
            let v = long_choice(c, <W::V as G>::g, &cs);
            let n = W::renc(&v).len();
            let p = long_plan(c, n);
            read_body::<W>(c, v, p)
        }),
        unit(format!("long/{name}/write"), 0, u64::MAX, move |c| {
            let v = long_choice(c, <W::V as G>::g, &cs2);
            let e = W::renc(&v);
            let p = long_plan(c, e.len());
            c.evals += 1;
            judge_write(&|| dbg(&v), &e, p, &mut |w| W::enc(&v, w))
        }),
    ]
}
pub fn c05() -> Vec<Unit> {
    let mut v = all_wires!(c05_units);
    v.extend(long_units::<W1<Vec<u8>>>("v1/Vec<u8>"));
    v.extend(long_units::<W2<Vec<u8>>>("v2/Vec<u8>"));
    v.extend(long_units::<W1<String>>("v1/String"));
    v.extend(long_units::<W2<String>>("v2/String"));
    v.extend(long_units::<W1<Vec<u64>>>("v1/Vec<u64>"));
    v.extend(long_units::<W2<Vec<u64>>>("v2/Vec<u64>"));
    v.extend(long_units::<W2<Vec<Option<Hash256>>>>("v2/Vec<Option<Hash256>>"));
    v.extend(long_units::<W1<v1::Transaction>>("v1/Transaction"));
    v.extend(long_units::<W2<v2::Transaction>>("v2/Transaction"));
    v.push(unit("v1/Transaction::encode_no_sigs/write", 1, b(200_000), |c| {
        c.base();
        let v = v1::Transaction::g(c);
        let e = v1_nosigs(&v);
        let p = plan(c, e.len());
        c.evals += 1;
        judge_write(&|| dbg(&v), &e, p, &mut |w| v.encode_no_sigs(w))
    }));
    v.push(unit("v2/ChainIndexElement::encode_semantics/write", 2, b(50_000), |c| {
        c.base();
        let v = v2::ChainIndexElement::g(c);
        let mut e = vec![];
        v.state_element.leaf_index.e2(&mut e);
        e.extend_from_slice(&[0; 8]);
        v.id.e2(&mut e);
        v.chain_index.e2(&mut e);
        let p = plan(c, e.len());
        c.evals += 1;
        judge_write(&|| dbg(&v), &e, p, &mut |w| v.encode_semantics(w))
    }));
    v
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C05",
        level: "fault_enumeration",
        profiles: C,
        units: c05,
        rule: "for each type, codec and direction: chunk sizes, every split position, every position and kind of interruption, passing and lasting error and end of stream, on every base value within the deviation bound; a case is distinct by (encoded value, plan) and non-trivial because the stream deviates from delivering everything at once",
        assumptions: &["streams obey the Read/Write contracts"],
    },
];
