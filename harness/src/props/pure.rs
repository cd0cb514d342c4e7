//! C30: an operation's result is determined by its arguments alone.
use super::*;
use crate::model::*;
use sia::consensus::*;
use sia::encoding::{SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use sia::types::v1::UnlockConditions;
use sia::types::v2::SpendPolicy;
use sia::types::*;
use std::io::{self, Read, Write};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::Duration as Wait;

fn steps() -> &'static [Step] {
    static S: OnceLock<Vec<Step>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        ids::steps(&mut v);
        tree::steps(&mut v);
        rules::steps(&mut v);
        text::steps(&mut v);
        arith::steps(&mut v);
        keys::steps(&mut v);
        json::steps(&mut v);
        binary_steps(&mut v);
        v
    })
}
fn run(s: &Step, p: &mut Place) -> Result<u64, String> {
    match guarded(|| (s.run)(p)) {
        Ok(r) => r.map_err(|m| format!("{}: {m}", s.name)),
        Err(m) => bad(format!("{} panics: {m}", s.name)),
    }
}

/// A policy of `n` nodes.
fn wide(n: usize) -> SpendPolicy {
    // one root, then groups of up to 255 below it
    let mut groups = vec![];
    let mut left = n - 1;
    while left > 0 {
        let k = left.min(200);
        groups.push(SpendPolicy::Threshold(1, vec![SpendPolicy::Above(3); k - 1]));
        left -= k;
    }
    SpendPolicy::Threshold(1, groups)
}
fn nested(n: usize) -> SpendPolicy {
    (1..n).fold(SpendPolicy::Above(1), |p, _| SpendPolicy::Threshold(1, vec![p]))
}
/// Decoding bytes, judged by the reference decoder.
fn decoded<W: reg::Wire>(b: &[u8]) -> Result<u64, String> {
    let mut cur = Cur::new(b);
    let want = W::rdec(&mut cur);
    let mut r = b;
    match (want, W::dec(&mut r)) {
        (Ok(w), Ok(g)) if w == g && b.len() - r.len() == cur.pos => Ok(1),
        (Err(()), Err(_)) => Ok(2),
        (w, g) => bad(format!("decoding {} gives {}, expected {}", short(b), dbg(&g), dbg(&w))),
    }
}
fn decode_step<W: reg::Wire>(o: &mut Vec<Step>, name: &str, b: Vec<u8>) {
    o.push(Step { name: format!("decoding {name}"), run: Box::new(move |p| p.bytes(&b, decoded::<W>)) });
}
fn binary_steps(o: &mut Vec<Step>) {
    fn bytes<W: reg::Wire>(o: &mut Vec<Step>, name: &str) {
        for m in [1, 2] {
            step(o, format!("encoding {name} {m}"), move || base::<W::V>(m), |v| {
                let mut e = vec![];
                W::enc(v, &mut e).map_err(|x| format!("{x:?}"))?;
                let want = W::renc(v);
                if e != want {
                    return bad(format!("the encoding is {}, expected {}", short(&e), short(&want)));
                }
                Ok(hash_bytes(&e))
            });
            let e = W::renc(&base(m));
            decode_step::<W>(o, &format!("{name} {m}"), e.clone());
            decode_step::<W>(o, &format!("half of {name} {m}"), e[..e.len() / 2].to_vec());
        }
    }
    use reg::{W1, W2};
    bytes::<W1<v1::Transaction>>(o, "v1 transaction");
    bytes::<W2<v2::Transaction>>(o, "v2 transaction");
    bytes::<W2<State>>(o, "chain state");
    bytes::<W1<Block>>(o, "v1 block");
    let enc = |p: &SpendPolicy| {
        let mut e = vec![2];
        e.clear();
        p.e2(&mut e);
        e
    };
    for n in [1usize, 3, 600, 1024, 1025, 1500] {
        let p = wide(n);
        decode_step::<W2<SpendPolicy>>(o, &format!("a policy of {n} nodes"), enc(&p));
    }
    for n in [30usize, 600, 1024, 1025] {
        let mut e = enc(&nested(n));
        decode_step::<W2<SpendPolicy>>(o, &format!("{n} nested policies"), e.clone());
        e.truncate(e.len() - 3);
        decode_step::<W2<SpendPolicy>>(o, &format!("{n} nested policies, cut"), e);
    }
}

/// Operations on bad arguments: documents with a bad node, broken encodings.
fn failing() -> &'static [json::Failing] {
    static S: OnceLock<Vec<json::Failing>> = OnceLock::new();
    S.get_or_init(|| {
        fn broken<W: reg::Wire>(o: &mut Vec<json::Failing>, name: &str, e: Vec<u8>) {
            let mut put = |b: Vec<u8>| {
                let other = b.clone();
                o.push(json::Failing {
                    name: format!("decoding {name} from {}", short(&b)),
                    cost: b.len(),
                    judged: Box::new(move || decoded::<W>(&b)),
                    quick: Box::new(move || guarded(|| W::dec(&mut &other[..]).is_ok()).map_err(|p| format!("decoding {} panics: {p}", short(&other)))),
                });
            };
            let step = e.len().div_ceil(120);
            for i in (0..e.len()).step_by(step) {
                put(e[..i].to_vec());
                let mut b = e.clone();
                b[i] = 0xff;
                put(b);
            }
        }
        use reg::{Wire, W1, W2};
        let mut v = vec![];
        json::failing(&mut v);
        broken::<W1<v1::Transaction>>(&mut v, "a v1 transaction", W1::<v1::Transaction>::renc(&base(1)));
        broken::<W2<v2::Transaction>>(&mut v, "a v2 transaction", W2::<v2::Transaction>::renc(&base(1)));
        broken::<W2<State>>(&mut v, "a chain state", W2::<State>::renc(&base(1)));
        broken::<W1<Block>>(&mut v, "a v1 block", W1::<Block>::renc(&base(1)));
        for p in [wide(3), wide(300), nested(30), SpendPolicy::Threshold(1, vec![SpendPolicy::Opaque(Address::new([3; 32])), SpendPolicy::Above(1)])] {
            broken::<W2<SpendPolicy>>(&mut v, "a policy", W2::<SpendPolicy>::renc(&p));
        }
        v
    })
}

// ---------------------------------------------------------------------- operations under way

/// A stream that lets others go on at every call.
struct Tap<'a> {
    src: &'a [u8],
    out: Vec<u8>,
    point: &'a mut dyn FnMut(),
}
impl Read for Tap<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (self.point)();
        self.src.read(buf)
    }
}
impl Write for Tap<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        (self.point)();
        self.out.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// An operation on a stream; it calls its argument whenever it uses the stream.
struct Io {
    name: String,
    run: Box<dyn Fn(&mut dyn FnMut()) -> Result<u64, String> + Send + Sync>,
}
fn reads<T: PartialEq + std::fmt::Debug + Send + Sync + 'static>(o: &mut Vec<Io>, name: String, v: T, e: Vec<u8>, f: fn(&mut Tap) -> Result<T, String>) {
    o.push(Io {
        name: format!("reading {name}"),
        run: Box::new(move |point| {
            let mut t = Tap { src: &e, out: vec![], point };
            match f(&mut t) {
                Ok(g) if g == v => Ok(1),
                g => bad(format!("{} gives {}, expected {}", short(&e), dbg(&g), dbg(&v))),
            }
        }),
    });
}
fn writes<T: std::fmt::Debug + Send + Sync + 'static>(o: &mut Vec<Io>, name: String, v: T, e: Vec<u8>, f: fn(&T, &mut Tap) -> Result<(), String>) {
    o.push(Io {
        name: format!("writing {name}"),
        run: Box::new(move |point| {
            let mut t = Tap { src: &[], out: vec![], point };
            f(&v, &mut t)?;
            if t.out != e {
                return bad(format!("{} was written, expected {}", short(&t.out), short(&e)));
            }
            Ok(2)
        }),
    });
}
fn ios() -> &'static [Io] {
    static S: OnceLock<Vec<Io>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o = vec![];
        macro_rules! v2 {
            ($n:expr, $t:ty, $v:expr) => {{
                let v: $t = $v;
                let mut e = vec![];
                v.e2(&mut e);
                reads(&mut o, format!("{} (v2)", $n), $v, e.clone(), |r| <$t>::decode(r).map_err(|e| format!("{e:?}")));
                writes(&mut o, format!("{} (v2)", $n), v, e, |v, w| v.encode(w).map_err(|e| format!("{e:?}")));
            }};
        }
        macro_rules! v1 {
            ($n:expr, $t:ty, $v:expr) => {{
                let v: $t = $v;
                let mut e = vec![];
                v.e1(&mut e);
                reads(&mut o, format!("{} (v1)", $n), $v, e.clone(), |r| <$t>::decode_v1(r).map_err(|e| format!("{e:?}")));
                writes(&mut o, format!("{} (v1)", $n), v, e, |v, w| v.encode_v1(w).map_err(|e| format!("{e:?}")));
            }};
        }
        let small = |m: usize| v1::Transaction {
            siacoin_inputs: vec![base(m)],
            siacoin_outputs: vec![base(m)],
            siafund_outputs: vec![base(m)],
            miner_fees: vec![Currency::new(1 << (m * 40))],
            arbitrary_data: vec![vec![m as u8; 3]],
            ..Default::default()
        };
        v1!("transaction", v1::Transaction, small(1));
        v1!("another transaction", v1::Transaction, small(2));
        writes(&mut o, "transaction without signatures".into(), small(1), v1_nosigs(&small(1)), |v, w| v.encode_no_sigs(w).map_err(|e| format!("{e:?}")));
        let small2 = |m: usize| {
            let mut t = empty_v2_txn();
            t.siacoin_outputs = vec![base(m)];
            t.attestations = vec![base(m)];
            t.siacoin_inputs = vec![base(m)];
            t.miner_fee = Currency::new(m as u128);
            t
        };
        v2!("transaction", v2::Transaction, small2(1));
        v2!("another transaction", v2::Transaction, small2(2));
        let key = |l: u8| SpendPolicy::PublicKey(sia::signing::PublicKey::new([l; 32]));
        v2!("policy", SpendPolicy, SpendPolicy::Threshold(1, vec![key(1), SpendPolicy::Threshold(2, vec![key(2), SpendPolicy::Above(9)])]));
        v2!("policy of 700 nodes", SpendPolicy, wide(700));
        v2!("unlock conditions", UnlockConditions, base(2));
        v2!("state", State, {
            let mut s: State = base(1);
            s.index.height = 5;
            s
        });
        // JSON
        let p = SpendPolicy::Threshold(1, vec![key(1), SpendPolicy::Above(9)]);
        let text = serde_json::to_string(&p.j()).unwrap().into_bytes();
        reads(&mut o, "policy (JSON)".into(), p.clone(), text, |r| serde_json::from_reader(r).map_err(|e| e.to_string()));
        o.push(Io {
            name: "writing transaction (JSON)".into(),
            run: Box::new(move |point| {
                let v = {
                    let mut t = empty_v2_txn();
                    t.siacoin_outputs = vec![base(2)];
                    t.miner_fee = Currency::new(77);
                    t
                };
                let mut t = Tap { src: &[], out: vec![], point };
                serde_json::to_writer(&mut t, &v).map_err(|e| e.to_string())?;
                match serde_json::from_slice::<serde_json::Value>(&t.out) {
                    Ok(d) if d == v.j() => Ok(3),
                    _ => bad(format!("{} was written, expected {}", String::from_utf8_lossy(&t.out), v.j())),
                }
            }),
        });
        o
    })
}

struct Turns<'c> {
    c: *mut Ctx<'c>,
    turn: usize,
    done: [bool; 2],
    log: Vec<u8>,
    progress: u64,
}
unsafe impl Send for Turns<'_> {}
struct Baton<'c> {
    m: Mutex<Turns<'c>>,
    cv: Condvar,
}
impl Baton<'_> {
    fn enter(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
        g.progress += 1;
        g.log.push(me as u8);
    }
    /// The operation is about to use its stream: who goes on is a choice.
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.progress += 1;
        // (it is not this one's turn if it waited for the other one)
        if g.turn == me && !g.done[1 - me] && unsafe { &mut *g.c }.choose(2) == 1 {
            g.turn = 1 - me;
            self.cv.notify_all();
        }
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
        g.log.push(me as u8);
    }
    fn leave(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.progress += 1;
        g.done[me] = true;
        g.turn = 1 - me;
        self.cv.notify_all();
    }
    /// Waits for both; one that waits for the other one inside the operation loses its turn.
    fn both(&self) {
        let mut g = self.m.lock().unwrap();
        let mut seen = g.progress;
        while g.done != [true; 2] {
            let (h, t) = self.cv.wait_timeout(g, Wait::from_secs(2)).unwrap();
            g = h;
            if t.timed_out() && g.progress == seen && !g.done[1 - g.turn] {
                g.turn = 1 - g.turn;
                self.cv.notify_all();
            }
            seen = g.progress;
        }
    }
}
/// Two stream operations on two threads; which one goes on at each use of a stream is a choice.
fn interleaved(c: &mut Ctx, a: &Io, z: &Io) -> Res {
    let turn = c.free(2);
    let b = Baton { m: Mutex::new(Turns { c, turn, done: [false; 2], log: vec![], progress: 0 }), cv: Condvar::new() };
    let out: [Result<u64, String>; 2] = std::thread::scope(|s| {
        let b = &b;
        let mut ths = vec![];
        for (i, op) in [a, z].into_iter().enumerate() {
            ths.push(s.spawn(move || {
                b.enter(i);
                let r = guarded(|| (op.run)(&mut || b.point(i)));
                b.leave(i);
                r.unwrap_or_else(|p| Err(format!("panics: {p}"))).map_err(|m| format!("{}: {m}", op.name))
            }));
        }
        b.both();
        let mut r = ths.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread died".into())));
        [r.next().unwrap(), r.next().unwrap()]
    });
    let log = b.m.into_inner().unwrap().log;
    c.sample(|| format!("{} with {}: {log:?}", a.name, z.name));
    for r in out {
        r.map_err(|m| format!("{m}, while {} and {} are under way", a.name, z.name))?;
    }
    Ok(hash_bytes(&log) ^ hash_bytes(a.name.as_bytes()) ^ hash_bytes(z.name.as_bytes()).rotate_left(3))
}

/// The process that explores the interleavings of one operation with the others.
pub fn race_main(a: usize) -> i32 {
    use std::os::unix::process::CommandExt;
    const FIXED: libc::c_int = libc::ADDR_NO_RANDOMIZE;
    // the same addresses in every run
    if std::env::var("MC_FIXED").is_err() && unsafe { libc::personality(FIXED as libc::c_ulong) } >= 0 {
        let _ = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("MC_FIXED", "1").exec();
    }
    race::main(steps, a, crate::thorough())
}
fn races(c: &mut Ctx, a: usize) -> Res {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe)
        .args(["race", &a.to_string()])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout);
    if let Some(m) = text.lines().find_map(|l| l.strip_prefix("BAD ")) {
        return bad(m);
    }
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("REPORT ") {
            let f: Vec<&str> = r.split(' ').collect();
            c.evals += f[0].parse::<u64>().unwrap_or(0);
            c.sample(|| format!("{}: {r} (runs, shared accesses scheduled, places written, dependent pairs, complete)", steps()[a].name));
            return Ok(hash_bytes(steps()[a].name.as_bytes()));
        }
    }
    bad(format!("the process exploring {} ended with {}", steps()[a].name, out.status))
}

fn c30() -> Vec<Unit> {
    let n = steps().len();
    let m = ios().len();
    let deep = crate::thorough();
    vec![
        unit("shared memory", 0, u64::MAX, move |c| {
            let a = c.free(n);
            races(c, a)
        }),
        // every sequence of operations, in one piece of memory
        unit("sequences", 0, u64::MAX, move |c| {
            let (x, y) = (c.free(n), c.free(n));
            let s = steps();
            let mut p = Place::default();
            c.sample(|| format!("{}; {}; {}", s[x].name, s[y].name, s[x].name));
            let after = |m: String, h: &[usize]| format!("{m} (after {})", h.iter().map(|i| s[*i].name.as_str()).collect::<Vec<_>>().join("; "));
            let mut h = run(&s[x], &mut p)?;
            let sector = |i: usize| s[i].name.starts_with("root of");
            h = h.rotate_left(9) ^ run(&s[y], &mut p).map_err(|m| after(m, &[x]))?;
            h = h.rotate_left(9) ^ run(&s[x], &mut p).map_err(|m| after(m, &[x, y]))?;
            c.evals += 3;
            if deep && !sector(x) && !sector(y) {
                for z in 0..n {
                    if sector(z) {
                        continue;
                    }
                    run(&s[x], &mut p).map_err(|m| after(m, &[z, y]))?;
                    run(&s[y], &mut p).map_err(|m| after(m, &[z, x]))?;
                    run(&s[z], &mut p).map_err(|m| after(m, &[x, y]))?;
                    c.evals += 3;
                }
            }
            Ok(h ^ (x as u64) << 48 ^ (y as u64) << 32)
        }),
        // an operation very many times, then every operation
        unit("repeated", 0, u64::MAX, move |c| {
            let x = c.free(n);
            let s = steps();
            let sector = |i: usize| s[i].name.starts_with("root of");
            let long = sector(x) || ["JSON", "nested", "signing"].iter().any(|w| s[x].name.contains(w));
            let times = match (sector(x), deep && !long) {
                (true, _) => 40,
                (_, false) => 4_200,
                (_, true) => 66_000,
            };
            let after = |m: String| format!("{m} (after {times} times {})", s[x].name);
            let r = std::thread::scope(|t| {
                t.spawn(|| -> Result<u64, String> {
                    let mut p = Place::default();
                    let mut h = run(&s[x], &mut p)?;
                    for i in 1..times {
                        if run(&s[x], &mut p).map_err(|m| format!("{m} (time {} in a row)", i + 1))? != h {
                            return bad(format!("{}: time {} in a row gives another result", s[x].name, i + 1));
                        }
                    }
                    for y in 0..n {
                        if !sector(y) {
                            h = h.rotate_left(9) ^ run(&s[y], &mut p).map_err(after)?;
                        }
                    }
                    Ok(h)
                })
                .join()
            });
            c.evals += times + n as u64;
            c.sample(|| format!("{times} times {}, then every operation", s[x].name));
            r.map_err(|_| "the thread ended")?.map(|h| h ^ (x as u64) << 40)
        }),
        // bad arguments very many times, then every operation
        unit("rejected again and again", 0, u64::MAX, move |c| {
            let all = failing();
            let x = &all[c.free(all.len())];
            let times = match (deep, x.cost) {
                (false, 400..) => 300,
                (false, _) => 1_100,
                (true, 400..) => 4_200,
                (true, _) => 16_800,
            };
            let s = steps();
            let after = |m: String| format!("{m} (after {times} times {})", x.name);
            let r = std::thread::scope(|t| {
                t.spawn(|| -> Result<u64, String> {
                    let mut p = Place::default();
                    let mut h = (x.judged)()?;
                    let first = (x.quick)()?;
                    for _ in 2..times {
                        if (x.quick)()? != first {
                            return Err(after(format!("another outcome of {}", x.name)));
                        }
                    }
                    if (x.judged)().map_err(after)? != h {
                        return Err(after(format!("another result of {}", x.name)));
                    }
                    for i in s {
                        if !i.name.starts_with("root of") {
                            h = h.rotate_left(9) ^ run(i, &mut p).map_err(after)?;
                        }
                    }
                    Ok(h)
                })
                .join()
            });
            c.evals += times + n as u64;
            c.sample(|| format!("{times} times {}, then every operation", x.name));
            r.map_err(|_| "the thread ended")?.map(|h| h ^ hash_bytes(x.name.as_bytes()))
        }),
        // any operation from inside the stream of another, at each of its uses
        unit("nested", 0, u64::MAX, move |c| {
            let a = &ios()[c.free(m)];
            let y = c.free(n);
            let s = &steps()[y];
            let mut total = 0usize;
            (a.run)(&mut || total += 1).map_err(|e| format!("{}: {e}", a.name))?;
            let heavy = s.name.starts_with("root of") || total > 300;
            let step = if heavy { total.div_ceil(6).max(1) } else { 1 };
            let mut at = 0;
            while at < total {
                let mut k = 0usize;
                let mut p = Place::default();
                let mut inner = Ok(0);
                let r = guarded(|| {
                    (a.run)(&mut || {
                        if k == at {
                            inner = run(s, &mut p);
                        }
                        k += 1;
                    })
                });
                inner.map_err(|e| format!("{e} (inside use {at} of the stream by {})", a.name))?;
                match r {
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) => return bad(format!("{}: {e} ({} inside use {at} of the stream)", a.name, s.name)),
                    Err(e) => return bad(format!("{} panics: {e} ({} inside use {at} of the stream)", a.name, s.name)),
                }
                c.evals += 2;
                at += step;
            }
            c.sample(|| format!("{} inside each of {total} uses of the stream by {}", s.name, a.name));
            Ok(hash_bytes(a.name.as_bytes()) ^ y as u64)
        }),
        // two stream operations at the same time
        unit("interleaved", if deep { 2 } else { 1 }, b(60_000), move |c| {
            let (i, j) = (c.free(m), c.free(m));
            let (a, z) = (&ios()[i], &ios()[j]);
            if a.name.contains("700") || z.name.contains("700") {
                return Ok(0);
            }
            c.evals += 2;
            interleaved(c, a, z)
        }),
    ]
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C30",
    level: MC,
    profiles: C,
    units: c30,
    rule: "every operation in a process whose statics and heap are write-protected: what it writes there; for operations that write, every schedule (up to one preemption, thorough: two) of it and each operation using the same memory, at every access to that memory, followed by every operation using it; histories of unlike operations (encoding, decoding, JSON, text, ids, addresses, signature hashes, signing, verification, phrases, rules, taxes, arithmetic, sector roots, including failing ones) whose arguments replace each other in one piece of memory: all pairs, each followed by the first again; every operation 4,200 times in a row (thorough: most 66,000 times), then every operation; documents with a bad node and broken encodings rejected 300 to 1,100 times in a row (thorough: 4,200 to 16,800), then every operation; every operation started from inside every use of a stream by every stream operation; two stream operations on two threads with every schedule of their stream uses up to a number of preemptions; each result judged by that operation's own oracle",
    assumptions: &["memory is sequentially consistent; shared memory is the program's statics and heap"],
}];
