//! Stateless bounded model checker.
//!
//! A *body* is a deterministic function that builds an input, a schedule or a
//! history by asking the context for choices, executes the real code on it and
//! compares what it observes with an oracle.  The explorer enumerates *all*
//! choice sequences with at most D deviations (choices other than the first
//! alternative), for D = 0, 1, 2, ... as long as the next level fits the unit's
//! budget.  `free` choices do not count as deviations and are always enumerated
//! completely.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

pub type Res = Result<u64, String>;

#[derive(Clone, Copy)]
struct Point {
    n: u32,
    c: u32,
    cost: bool,
}

/// The choices of one execution.
pub struct Ctx<'a> {
    prefix: &'a [u32],
    trace: Vec<Point>,
    /// base value: 0 = zero/empty, 1 = one distinct element everywhere, 2 = two
    pub mode: usize,
    /// distinct-value counter of the dense modes
    pub ctr: u64,
    /// number of nested containers around the value being generated
    pub depth: u32,
    /// full boundary alphabets (otherwise shortened ones inside containers)
    pub rich: bool,
    /// only values that have a JSON form
    pub json: bool,
    /// times between two seconds, which only JSON can express
    pub frac: bool,
    /// inner evaluations done by the body
    pub evals: u64,
    pub sample: Option<String>,
    want_sample: bool,
    pub quiet: bool,
    /// kinds of the variable-length parts generated so far, in order
    pub lists: Vec<u8>,
    /// the length of one of them
    pub force: Option<(usize, usize)>,
}

impl<'a> Ctx<'a> {
    pub fn new(prefix: &'a [u32], want_sample: bool) -> Self {
        Ctx {
            prefix,
            trace: Vec::with_capacity(64),
            mode: 0,
            ctr: 0,
            depth: 0,
            rich: true,
            json: false,
            frac: false,
            evals: 0,
            sample: None,
            want_sample,
            quiet: false,
            lists: vec![],
            force: None,
        }
    }
    fn pt(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        if c as usize >= n {
            // a recorded choice that does not exist any more: replay divergence
            std::panic::panic_any(Divergence);
        }
        self.trace.push(Point {
            n: n as u32,
            c,
            cost,
        });
        c as usize
    }
    /// A choice whose non-default alternatives count as one deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        if self.quiet {
            return 0;
        }
        self.pt(n, true)
    }
    /// A choice that is always enumerated completely.
    pub fn free(&mut self, n: usize) -> usize {
        self.pt(n, false)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    /// Select the base value (free choice).
    pub fn base(&mut self) {
        self.mode = self.free(3);
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// Notes a variable-length part; its length if it was fixed beforehand.
    pub fn forced_len(&mut self, kind: u8) -> Option<usize> {
        let i = self.lists.len();
        self.lists.push(kind);
        match self.force {
            Some((k, n)) if k == i => Some(n),
            _ => None,
        }
    }
    pub fn next_ctr(&mut self) -> u64 {
        self.ctr += 1;
        self.ctr
    }
}

struct Divergence;

pub struct Unit {
    pub name: String,
    /// largest number of deviations to try
    pub max_dev: u32,
    /// largest size of a level that is still explored
    pub budget: u64,
    pub body: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>,
    /// the schedule is not controlled completely
    pub nondet: bool,
    /// a failure counts only if it occurs again: what the body observes may come from elsewhere in the process
    pub must_repeat: bool,
    /// run alone on a single thread (the body uses its own threads)
    pub serial: bool,
}

pub fn unit<F>(name: impl Into<String>, max_dev: u32, budget: u64, body: F) -> Unit
where
    F: Fn(&mut Ctx) -> Res + Send + Sync + 'static,
{
    Unit {
        name: name.into(),
        max_dev,
        budget,
        body: Box::new(body),
        nondet: false,
        must_repeat: false,
        serial: false,
    }
}

#[derive(Default, Clone, Debug)]
pub struct UnitStats {
    pub name: String,
    pub executions: u64,
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub bound: u32,
    pub complete: bool,
    pub next_level: u64,
    pub max_depth: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: usize,
    pub unit_name: String,
    pub prefix: Vec<u32>,
    pub message: String,
}

#[derive(Default)]
pub struct Outcome {
    pub stats: Vec<UnitStats>,
    pub violations: Vec<Violation>,
    pub engine_errors: Vec<String>,
    pub samples: Vec<(String, String)>,
    pub capped: bool,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Runs f and turns a panic of the code under test into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ---- slots: what each thread is executing, visible to the supervising process
pub const SLOT_WORDS: usize = 2048;
pub const MAX_SLOTS: usize = 16;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static SLOT_NEXT: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(target_family = "wasm"))]
pub fn map_slots(path: &str, create: bool) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .expect("slot file");
    let len = SLOT_WORDS * MAX_SLOTS * 8;
    if create {
        f.set_len(len as u64).expect("slot file size");
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap slots");
    p as *mut u64
}
pub fn use_slots(p: *mut u64) {
    SLOT_BASE.store(p as usize, Ordering::SeqCst);
}
fn claim_slot() {
    let base = SLOT_BASE.load(Ordering::SeqCst);
    if base == 0 {
        return;
    }
    let i = SLOT_NEXT.fetch_add(1, Ordering::SeqCst) % MAX_SLOTS;
    let p = unsafe { (base as *mut u64).add(i * SLOT_WORDS) };
    SLOT.with(|s| s.set(p));
}
/// words: [0] active(1)/idle(0), [1] execution counter, [2] unit, [3] prefix length, [4..] prefix
fn slot_enter(unit: usize, prefix: &[u32]) {
    SLOT.with(|s| {
        let p = s.get();
        if p.is_null() {
            return;
        }
        unsafe {
            let n = prefix.len().min((SLOT_WORDS - 5) * 2);
            p.add(2).write_volatile(unit as u64);
            p.add(3).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), p.add(4) as *mut u32, n);
            let c = p.add(1).read_volatile();
            p.add(1).write_volatile(c + 1);
            p.write_volatile(1);
        }
    });
}
fn slot_leave() {
    SLOT.with(|s| {
        let p = s.get();
        if !p.is_null() {
            unsafe { p.write_volatile(0) };
        }
    });
}

enum Exec {
    Ok(u64),
    Bad(String),
    Diverged,
}

fn exec<'a>(u: &Unit, ui: usize, prefix: &'a [u32], want_sample: bool) -> (Exec, Ctx<'a>) {
    let mut ctx = Ctx::new(prefix, want_sample);
    slot_enter(ui, prefix);
    let r = catch_unwind(AssertUnwindSafe(|| (u.body)(&mut ctx)));
    slot_leave();
    let e = match r {
        Ok(Ok(h)) => Exec::Ok(h),
        Ok(Err(m)) => Exec::Bad(m),
        Err(p) => {
            if p.is::<Divergence>() {
                Exec::Diverged
            } else {
                Exec::Bad(format!("panicked: {}", last_panic()))
            }
        }
    };
    (e, ctx)
}

/// Re-executes one choice sequence.
pub fn replay(u: &Unit, prefix: &[u32]) -> Result<u64, String> {
    match exec(u, 0, prefix, true).0 {
        Exec::Ok(h) => Ok(h),
        Exec::Bad(m) => Err(m),
        Exec::Diverged => Err("the recorded choices do not exist (replay divergence)".into()),
    }
}

struct Shared<'a> {
    units: &'a [Unit],
    queue: Mutex<(Vec<Task>, usize)>, // tasks, number of working threads
    cv: Condvar,
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    errors: Mutex<Vec<String>>,
    samples: Mutex<Vec<(String, String)>>,
    nviol: AtomicU64,
}
struct Task {
    unit: usize,
    prefix: Vec<u32>,
    dev: u32,
    costroot: bool,
}
#[derive(Default)]
struct Acc {
    executions: u64,
    evals: u64,
    transitions: u64,
    next_cost: u64,
    last_execs: u64,
    last_roots: u64,
    max_depth: u64,
    states: HashSet<u64>,
}

/// state hashes kept at once, over all units and threads
const MAX_STATES: u64 = 60_000_000;
static STATES_HELD: AtomicU64 = AtomicU64::new(0);

pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 8)
}

/// Explores all executions of `units` with at most `bounds[u]` deviations.
fn pass(
    units: &[Unit],
    which: &[(usize, u32)],
    nthreads: usize,
    out: &mut Outcome,
) -> Vec<(usize, Acc)> {
    let bounds: std::collections::HashMap<usize, u32> = which.iter().cloned().collect();
    let sh = Shared {
        units,
        queue: Mutex::new((
            which
                .iter()
                .rev()
                .map(|&(u, _)| Task {
                    unit: u,
                    prefix: vec![],
                    dev: 0,
                    costroot: true,
                })
                .collect(),
            0,
        )),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        violations: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
    };
    let sampled: Vec<AtomicBool> = units.iter().map(|_| AtomicBool::new(false)).collect();
    let accs: Mutex<std::collections::BTreeMap<usize, Acc>> = Mutex::new(Default::default());
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            let sh = &sh;
            let accs = &accs;
            let bounds = &bounds;
            let sampled = &sampled;
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    claim_slot();
                    let mut local: std::collections::BTreeMap<usize, Acc> = Default::default();
                    loop {
                        let task = {
                            let mut q = sh.queue.lock().unwrap();
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                if let Some(t) = q.0.pop() {
                                    q.1 += 1;
                                    break Some(t);
                                }
                                if q.1 == 0 {
                                    break None;
                                }
                                q = sh.cv.wait(q).unwrap();
                            }
                        };
                        let Some(task) = task else {
                            sh.cv.notify_all();
                            break;
                        };
                        let acc = local.entry(task.unit).or_default();
                        let bound = bounds[&task.unit];
                        let mut stack = vec![task];
                        let mut n = 0u64;
                        while let Some(t) = stack.pop() {
                            if sh.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            n += 1;
                            // share work that piled up locally
                            if stack.len() > 64 && n % 8 == 0 {
                                let mut q = sh.queue.lock().unwrap();
                                if q.0.len() < 4 * 8 {
                                    let keep = stack.len() / 2;
                                    q.0.extend(stack.drain(..keep));
                                    sh.cv.notify_all();
                                }
                            }
                            run_one(sh, acc, bound, t, &mut stack, sampled);
                        }
                        let mut q = sh.queue.lock().unwrap();
                        q.1 -= 1;
                        drop(q);
                        sh.cv.notify_all();
                    }
                    let mut g = accs.lock().unwrap();
                    for (u, a) in local {
                        let e = g.entry(u).or_default();
                        e.executions += a.executions;
                        e.evals += a.evals;
                        e.transitions += a.transitions;
                        e.next_cost += a.next_cost;
                        e.last_execs += a.last_execs;
                        e.last_roots += a.last_roots;
                        e.max_depth = e.max_depth.max(a.max_depth);
                        if e.states.is_empty() {
                            e.states = a.states;
                        } else {
                            e.states.extend(a.states);
                        }
                    }
                })
                .expect("spawn");
        }
    });
    out.violations.append(&mut sh.violations.into_inner().unwrap());
    out.engine_errors.append(&mut sh.errors.into_inner().unwrap());
    out.samples.append(&mut sh.samples.into_inner().unwrap());
    accs.into_inner().unwrap().into_iter().collect()
}

fn run_one(
    sh: &Shared,
    acc: &mut Acc,
    bound: u32,
    t: Task,
    stack: &mut Vec<Task>,
    sampled: &[AtomicBool],
) {
    let u = &sh.units[t.unit];
    let want = !sampled[t.unit].load(Ordering::Relaxed) && t.dev == bound;
    let (e, mut ctx) = exec(u, t.unit, &t.prefix, want);
    acc.executions += 1;
    acc.evals += ctx.evals;
    acc.transitions += (ctx.trace.len() + 1).saturating_sub(t.prefix.len()) as u64;
    acc.max_depth = acc.max_depth.max(ctx.trace.len() as u64);
    if let Some(s) = ctx.sample.take() {
        if !sampled[t.unit].swap(true, Ordering::Relaxed) {
            let cs: Vec<u32> = ctx.trace.iter().map(|p| p.c).collect();
            let k = cs.iter().rposition(|&c| c != 0).map_or(0, |i| i + 1);
            sh.samples
                .lock()
                .unwrap()
                .push((format!("{} choices={:?}", u.name, &cs[..k]), s));
        }
    }
    match e {
        Exec::Ok(h) => {
            if STATES_HELD.load(Ordering::Relaxed) < MAX_STATES && acc.states.insert(h) {
                STATES_HELD.fetch_add(1, Ordering::Relaxed);
            }
        }
        // (transitions of an uncontrolled schedule)
        Exec::Diverged if u.nondet => return,
        Exec::Diverged => {
            sh.errors.lock().unwrap().push(format!(
                "{}: replay divergence at {:?}: the body is not deterministic",
                u.name, t.prefix
            ));
            sh.stop.store(true, Ordering::Relaxed);
            return;
        }
        Exec::Bad(m) => {
            // the same choices must fail again
            let again = exec(u, t.unit, &t.prefix, false).0;
            let again2 = exec(u, t.unit, &t.prefix, false).0;
            let same = matches!((&again, &again2), (Exec::Bad(_), Exec::Bad(_)));
            if !same && u.must_repeat {
                sh.errors.lock().unwrap().push(format!(
                    "{}: {:?} failed once ({m}) but not on replay",
                    u.name, t.prefix
                ));
                sh.stop.store(true, Ordering::Relaxed);
                return;
            }
            sh.violations.lock().unwrap().push(Violation {
                unit: t.unit,
                unit_name: u.name.clone(),
                prefix: t.prefix.clone(),
                message: if same { m } else { format!("{m} (not on every run)") },
            });
            if sh.nviol.fetch_add(1, Ordering::Relaxed) + 1 >= 20 {
                sh.stop.store(true, Ordering::Relaxed);
            }
            return;
        }
    }
    if t.dev == bound {
        acc.last_execs += 1;
        // without deviations: an execution whose free choices all precede the first place for one
        let first_cost = ctx.trace.iter().position(|p| p.cost).unwrap_or(ctx.trace.len());
        let early = t.dev == 0 && ctx.trace[first_cost..].iter().all(|p| p.c == 0);
        if t.costroot || early {
            acc.last_roots += 1;
        }
    }
    let base: Vec<u32> = ctx.trace.iter().map(|p| p.c).collect();
    for i in (t.prefix.len()..ctx.trace.len()).rev() {
        let p = ctx.trace[i];
        let ndev = t.dev + p.cost as u32;
        if ndev > bound {
            acc.next_cost += (p.n - 1) as u64;
            continue;
        }
        for alt in (1..p.n).rev() {
            let mut pre = Vec::with_capacity(i + 1);
            pre.extend_from_slice(&base[..i]);
            pre.push(alt);
            stack.push(Task {
                unit: t.unit,
                prefix: pre,
                dev: ndev,
                costroot: p.cost,
            });
        }
    }
}

/// One worker of an exploration that others share, on a target without threads. `each` is told every case
/// before it is executed and says whether another worker is idle; `give` hands it some of the tasks left.
#[cfg(target_family = "wasm")]
pub fn explore_part(units: &[Unit], bound: u32, unit: usize, tasks: Vec<(Vec<u32>, u32, bool)>, mut each: impl FnMut(&[u32]) -> bool, mut give: impl FnMut(Vec<(Vec<u32>, u32, bool)>)) -> Part {
    let sh = Shared {
        units,
        queue: Mutex::new((vec![], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        violations: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
    };
    let sampled: Vec<AtomicBool> = units.iter().map(|_| AtomicBool::new(false)).collect();
    let mut acc = Acc::default();
    let mut stack: Vec<Task> = tasks.into_iter().map(|(prefix, dev, costroot)| Task { unit, prefix, dev, costroot }).collect();
    while let Some(t) = stack.pop() {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        if each(&t.prefix) && stack.len() > 1 {
            let n = (stack.len() / 2).min(256);
            give(stack.drain(..n).map(|t| (t.prefix, t.dev, t.costroot)).collect());
        }
        run_one(&sh, &mut acc, bound, t, &mut stack, &sampled);
    }
    Part {
        stats: UnitStats {
            name: units[unit].name.clone(),
            executions: acc.executions,
            evals: acc.evals,
            states: acc.states.len() as u64,
            transitions: acc.transitions,
            max_depth: acc.max_depth,
            ..Default::default()
        },
        next_cost: acc.next_cost,
        last_execs: acc.last_execs,
        last_roots: acc.last_roots,
        states: acc.states.into_iter().collect(),
        violations: sh.violations.into_inner().unwrap(),
        errors: sh.errors.into_inner().unwrap(),
        samples: sh.samples.into_inner().unwrap(),
    }
}
#[cfg(target_family = "wasm")]
pub struct Part {
    pub stats: UnitStats,
    pub next_cost: u64,
    pub last_execs: u64,
    pub last_roots: u64,
    pub states: Vec<u64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<(String, String)>,
}

/// Explores every unit, raising the deviation bound while the next level fits the budget.
pub fn explore(units: &[Unit], deadline_s: f64) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut out = Outcome::default();
    let mut stats: Vec<UnitStats> = units
        .iter()
        .map(|u| UnitStats {
            name: u.name.clone(),
            ..Default::default()
        })
        .collect();
    for serial in [false, true] {
        let mut active: Vec<(usize, u32)> = units
            .iter()
            .enumerate()
            .filter(|(_, u)| u.serial == serial)
            .map(|(i, _)| (i, 0))
            .collect();
        while !active.is_empty() {
            STATES_HELD.store(0, Ordering::Relaxed);
            let t1 = std::time::Instant::now();
            let accs = pass(units, &active, if serial { 1 } else { threads() }, &mut out);
            if std::env::var("MC_TIME").is_ok() {
                eprintln!("{:.1} s for {:?}", t1.elapsed().as_secs_f64(), active.iter().map(|(u, d)| format!("{} D={d}", units[*u].name)).collect::<Vec<_>>());
            }
            let mut next = vec![];
            for (u, a) in accs {
                let bound = active.iter().find(|x| x.0 == u).unwrap().1;
                let ratio = if a.last_roots > 0 {
                    a.last_execs as f64 / a.last_roots as f64
                } else {
                    1.0
                };
                let est = (a.next_cost as f64 * ratio) as u64;
                let s = &mut stats[u];
                s.executions = a.executions;
                s.evals = a.evals;
                s.states = a.states.len() as u64;
                s.transitions = a.transitions;
                s.bound = bound;
                s.complete = a.next_cost == 0;
                s.next_level = est;
                s.max_depth = a.max_depth;
                if a.next_cost > 0 && bound < units[u].max_dev && est <= units[u].budget {
                    next.push((u, bound + 1));
                }
            }
            if !out.violations.is_empty() || !out.engine_errors.is_empty() {
                break;
            }
            if t0.elapsed().as_secs_f64() > deadline_s {
                out.capped = !next.is_empty();
                break;
            }
            active = next;
        }
        if !out.violations.is_empty() || !out.engine_errors.is_empty() {
            break;
        }
    }
    out.violations
        .sort_by_key(|v| (v.prefix.iter().filter(|&&c| c != 0).count(), v.prefix.len()));
    out.stats = stats;
    out
}

/// FNV-1a, used for state hashes only.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(w) ^ (c.len() as u64);
        h = h.wrapping_mul(0x100000001b3).rotate_left(23);
    }
    h ^ (h >> 29)
}
