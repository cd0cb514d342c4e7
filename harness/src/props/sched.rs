//! C28: a sector's root under different parallel schedules.
//!
//! In the "checked" build rayon's core is replaced by a controlled scheduler (rayon-stub): which thread goes on at
//! every point where rayon would let another one go on, who takes which task, and the number of workers are choices
//! of the explorer.  The "real" build runs the same callers on rayon's own thread pools.
use super::*;
use rayon::prelude::*;
use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
use std::sync::OnceLock;

const KINDS: usize = 6;
/// A sector whose segments all differ; the kinds differ in all segments, in one, or in one byte.
fn sector(kind: usize) -> &'static [u8] {
    static S: [OnceLock<Vec<u8>>; KINDS] = [const { OnceLock::new() }; KINDS];
    S[kind].get_or_init(|| {
        let mut s = vec![0u8; SECTOR_SIZE];
        let mut x = 0x9e3779b97f4a7c15u64 ^ if kind == 1 { 77 } else { 0 };
        for c in s.chunks_mut(8) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c.copy_from_slice(&x.to_le_bytes());
        }
        match kind {
            2 => s[0] ^= 1,
            3 => s[SECTOR_SIZE - 1] ^= 0x80,
            4 => s[SECTOR_SIZE / 2..SECTOR_SIZE / 2 + SEGMENT_SIZE].fill(0),
            5 => s.fill(0),
            _ => {}
        }
        s
    })
}
fn expected(kind: usize) -> [u8; 32] {
    static R: [OnceLock<[u8; 32]>; KINDS] = [const { OnceLock::new() }; KINDS];
    *R[kind].get_or_init(|| {
        let mut level: Vec<[u8; 32]> = sector(kind).chunks(SEGMENT_SIZE).map(|s| crate::model::blake(&[&[0], s])).collect();
        while level.len() > 1 {
            level = level.chunks(2).map(|p| crate::model::blake(&[&[1], &p[0], &p[1]])).collect();
        }
        level[0]
    })
}
fn root_of(s: &[u8]) -> [u8; 32] {
    sector_root(s).into()
}
/// What one caller does.
#[derive(Clone, Copy, Debug)]
enum Call {
    /// one root after the other
    Sequence(&'static [usize]),
    /// two roots as the two sides of a join
    Join(usize, usize),
    /// a parallel iterator over sectors
    Iter(&'static [usize]),
    /// the contents of one buffer change between the calls
    Rewrite(&'static [usize]),
    /// inside a pool of its own
    Pool(usize, usize),
    /// from tasks of a scope
    Scope(&'static [usize]),
}
fn perform(call: Call) -> Vec<(usize, [u8; 32])> {
    match call {
        Call::Sequence(ks) => ks.iter().map(|&k| (k, root_of(sector(k)))).collect(),
        Call::Join(a, b) => {
            let (x, y) = rayon::join(|| root_of(sector(a)), || root_of(sector(b)));
            vec![(a, x), (b, y)]
        }
        Call::Iter(ks) => ks.par_iter().map(|&k| (k, root_of(sector(k)))).collect(),
        Call::Rewrite(ks) => {
            let mut buf = vec![0u8; SECTOR_SIZE];
            ks.iter()
                .map(|&k| {
                    buf.copy_from_slice(sector(k));
                    (k, root_of(&buf))
                })
                .collect()
        }
        Call::Pool(n, k) => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
            vec![(k, pool.install(|| root_of(sector(k))))]
        }
        Call::Scope(ks) => {
            let out = std::sync::Mutex::new(vec![]);
            rayon::scope(|s| {
                for &k in ks {
                    let out = &out;
                    s.spawn(move |_| {
                        let r = root_of(sector(k));
                        out.lock().unwrap().push((k, r));
                    });
                }
            });
            out.into_inner().unwrap()
        }
    }
}
fn judge(what: &str, call: Call, got: std::thread::Result<Vec<(usize, [u8; 32])>>) -> Result<(), String> {
    let Ok(got) = got else {
        return bad(format!("{what}: {call:?} panics"));
    };
    for (k, r) in got {
        if r != expected(k) {
            return bad(format!("{what}: {call:?}: the root of sector {k} is {}, expected {}", crate::model::hexs(&r), crate::model::hexs(&expected(k))));
        }
    }
    Ok(())
}

#[cfg(feature = "controlled")]
fn scheduled(c: &mut Ctx, threads: usize, policy: usize, alt: (u64, usize), fine: bool, calls: &[Call]) -> Res {
    // prepared outside the schedule
    for k in 0..KINDS {
        expected(k);
    }
    let callers: Vec<Box<dyn FnOnce() -> Vec<(usize, [u8; 32])> + Send>> = calls.iter().map(|&call| Box::new(move || perform(call)) as _).collect();
    struct Shared<T>(T);
    unsafe impl<T> Send for Shared<T> {}
    let mut trace = 0u64;
    let mut payload = None;
    let (out, rep) = {
        let mut sh = Shared((&mut *c, &mut trace, &mut payload));
        let mut chooser = move |n: usize| {
            let sh = &mut sh;
            if !fine {
                return 0;
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sh.0 .0.choose(n))) {
                Ok(k) => {
                    *sh.0 .1 = sh.0 .1.wrapping_mul(31).wrapping_add(k as u64 * 7 + n as u64);
                    k
                }
                Err(p) => {
                    *sh.0 .2 = Some(p);
                    0
                }
            }
        };
        rayon_core::sched::run(threads, policy, alt, callers, &mut chooser)
    };
    if let Some(p) = payload {
        std::panic::resume_unwind(p);
    }
    let what = format!("{threads} workers, base schedule {policy}, in phase {} schedule {}", alt.0, alt.1);
    if rep.deadlock {
        return bad(format!("{what}: the callers {calls:?} wait for each other forever"));
    }
    c.evals += rep.switches;
    c.sample(|| format!("{what}, callers {calls:?}: {} switches", rep.switches));
    for (i, r) in out.into_iter().enumerate() {
        judge(&what, calls[i], r)?;
    }
    Ok(trace ^ hash_bytes(&[rep.switches.to_le_bytes(), (threads as u64).to_le_bytes(), (policy as u64).to_le_bytes(), alt.0.to_le_bytes(), (alt.1 as u64).to_le_bytes()].concat()))
}
#[cfg(feature = "controlled")]
fn units() -> Vec<Unit> {
    let mut v = vec![];
    // every phase under every base schedule
    const NO: (u64, usize) = (u64::MAX, 0);
    let deep = crate::thorough();
    for t in [1usize, 2, 3, 4, 8, 16] {
        v.push(unit(format!("phases/{t} workers"), 1, b(5_000), move |c| {
            let policy = c.free(4);
            let phase = c.free(if deep { 40 } else if t > 4 { 3 } else { 9 }) as u64 * if deep { 1 } else if t > 4 { 6 } else { 2 };
            let other = (policy + 1 + c.free(if deep { 3 } else { 1 })) % 4;
            scheduled(c, t, policy, if phase == 0 { NO } else { (phase, other) }, false, &[Call::Sequence(&[0])])
        }));
    }
    // deviations at every single point
    for t in if deep { &[1usize, 2, 3, 4, 5, 8, 16][..] } else { &[1, 2, 4] } {
        let t = *t;
        v.push(unit(format!("points/{t} workers"), 4, b(if t > 2 { 400 } else { 1_000 }), move |c| {
            let policy = c.free(if t < 2 || deep { 4 } else { 1 });
            scheduled(c, t, policy, NO, true, &[Call::Sequence(&[0])])
        }));
    }
    if deep {
        for t in [64usize, 256] {
            v.push(unit(format!("points/{t} workers"), 1, 200, move |c| {
                let policy = c.free(4);
                scheduled(c, t, policy, NO, true, &[Call::Sequence(&[0])])
            }));
        }
    }
    const CALLS: [&[Call]; 13] = [
        &[Call::Sequence(&[0]), Call::Sequence(&[1])],
        &[Call::Sequence(&[0]), Call::Sequence(&[0])],
        &[Call::Sequence(&[0, 2]), Call::Sequence(&[2, 0])],
        &[Call::Sequence(&[0]), Call::Sequence(&[1]), Call::Sequence(&[4])],
        &[Call::Sequence(&[0, 0, 1, 0, 3])],
        &[Call::Rewrite(&[0, 1, 0, 2, 3, 5])],
        &[Call::Join(0, 1)],
        &[Call::Join(0, 2), Call::Sequence(&[1])],
        &[Call::Iter(&[0, 1, 2, 3])],
        &[Call::Scope(&[0, 1, 4])],
        &[Call::Pool(2, 0), Call::Sequence(&[1])],
        &[Call::Pool(3, 0), Call::Pool(1, 1)],
        &[Call::Rewrite(&[0, 1]), Call::Rewrite(&[1, 0])],
    ];
    for (i, calls) in CALLS.iter().enumerate() {
        v.push(unit(format!("phases/callers {i}"), 1, b(3_000), move |c| {
            let t = [2usize, 8, 1, 3][c.free(if deep { 4 } else { 2 })];
            let policy = c.free(if deep || t < 8 { 4 } else { 2 });
            let phase = c.free(if deep { 40 } else { 3 }) as u64;
            let other = (policy + 2) % 4;
            scheduled(c, t, policy, if phase == 0 { NO } else { (phase * if deep { 1 } else { 9 }, other) }, false, calls)
        }));
        v.push(unit(format!("points/callers {i}"), 3, b(if i == 0 { 700 } else { 150 }), move |c| {
            let t = [2usize, 1, 3][c.free(if deep { 3 } else { 1 })];
            let policy = c.free(if deep { 3 } else { 1 });
            scheduled(c, t, policy, NO, true, calls)
        }));
    }
    for u in v.iter_mut() {
        u.nondet = true;
    }
    v
}

#[cfg(not(feature = "controlled"))]
fn units() -> Vec<Unit> {
    let mut u = unit("rayon's own pools", 0, u64::MAX, |c| {
        for k in 0..KINDS {
            expected(k);
        }
        let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 16, 64][c.free(10)];
        let callers = 1 + c.free(4);
        const CALLS: [Call; 6] = [
            Call::Sequence(&[0, 1]),
            Call::Rewrite(&[0, 1, 0]),
            Call::Join(0, 1),
            Call::Iter(&[0, 1, 2, 3]),
            Call::Scope(&[0, 1, 4]),
            Call::Pool(3, 0),
        ];
        let first = c.free(CALLS.len());
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
        let out: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..callers)
                .map(|i| {
                    let call = CALLS[(first + i) % CALLS.len()];
                    let pool = &pool;
                    (call, s.spawn(move || pool.install(|| perform(call))))
                })
                .collect();
            hs.into_iter().map(|(call, h)| (call, h.join())).collect()
        });
        c.evals += callers as u64;
        for (call, r) in out {
            judge(&format!("rayon with {n} workers and {callers} callers"), call, r)?;
        }
        Ok((n * 64 + callers * 8 + first) as u64)
    });
    u.nondet = true;
    u.serial = true;
    vec![u]
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C28",
    level: MC,
    profiles: &["checked", "real"],
    units,
    rule: "the real sector_root on the real rayon iterators over a controlled scheduler: for 1 to 16 workers (256 at the thorough tier) and 1 to 3 concurrent callers (also nested in joins, scopes, parallel iterators and pools of their own), all schedules with at most `deviation_bound` deviations from four base schedules (depth first, steal at once, round robin, last first), every root compared with a sequential reference; the same callers on rayon's own pools as a conformance run",
    assumptions: &["other threads go on only where a task starts, ends, is stolen or waits", "sequentially consistent memory in the controlled runs"],
}];
