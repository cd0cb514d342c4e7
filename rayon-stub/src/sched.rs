//! The controlled scheduler: every thread that takes part in an execution runs only while it holds the turn;
//! wherever rayon would allow another thread to go on, the explorer decides which one does.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

const NONE: usize = usize::MAX;

pub struct Job {
    pub id: u64,
    run: Box<dyn FnOnce(bool) + Send>,
}
/// Counts down to zero.
pub type Latch = Arc<AtomicUsize>;
pub fn latch(n: usize) -> Latch {
    Arc::new(AtomicUsize::new(n))
}

enum Status {
    Idle,
    Ready,
    Running,
    Waiting(Latch),
    /// blocked outside the scheduler
    Lost,
    Done,
}
struct Th {
    reg: usize,
    index: usize,
    worker: bool,
    status: Status,
    deque: VecDeque<Job>,
    private: VecDeque<Job>,
    started: bool,
    tid: i32,
    cv: Arc<Condvar>,
}
struct Reg {
    workers: Vec<usize>,
    injected: VecDeque<Job>,
}
struct Chooser(*mut (dyn FnMut(usize) -> usize + 'static));
unsafe impl Send for Chooser {}
pub struct St {
    th: Vec<Th>,
    regs: Vec<Reg>,
    pools: HashMap<u64, usize>,
    turn: usize,
    next_job: u64,
    chooser: Chooser,
    policy: usize,
    /// from this phase on (a phase begins where a caller enters the pool), for one phase, another policy
    alt: (u64, usize),
    phase: u64,
    finished: bool,
    done: Arc<Condvar>,
    epoch: u64,
    watch: (u64, u64, u32, Option<Instant>),
    deadlock: bool,
    switches: u64,
}
pub struct Exec {
    m: Mutex<St>,
}
thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}
pub fn current() -> Option<(Arc<Exec>, usize)> {
    CUR.with(|c| c.borrow().clone())
}

impl St {
    fn has_work(&self, i: usize) -> bool {
        let t = &self.th[i];
        t.worker
            && (!t.private.is_empty()
                || !self.regs[t.reg].injected.is_empty()
                || self.regs[t.reg].workers.iter().any(|&w| !self.th[w].deque.is_empty()))
    }
    fn enabled(&self, i: usize) -> bool {
        match &self.th[i].status {
            Status::Ready => true,
            Status::Idle => self.has_work(i),
            Status::Waiting(l) => l.load(Ordering::SeqCst) == 0 || self.has_work(i),
            _ => false,
        }
    }
    fn choose(&mut self, n: usize, default: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = unsafe { (*self.chooser.0)(n) };
        (default + k) % n
    }
    /// Gives the turn away; `me` is the thread that had it.
    fn dispatch(&mut self, ex: &Arc<Exec>, me: usize) {
        let n = self.th.len();
        let mut cands: Vec<usize> = vec![];
        let mut fresh: Vec<usize> = vec![];
        for k in 0..n {
            let i = (me + k) % n;
            if self.enabled(i) {
                // workers that have not run yet are interchangeable
                let t = &self.th[i];
                if t.worker && !t.started && t.private.is_empty() {
                    if fresh.contains(&t.reg) {
                        continue;
                    }
                    fresh.push(t.reg);
                }
                cands.push(i);
            }
        }
        if cands.is_empty() {
            self.turn = NONE;
            if !self.th.iter().any(|t| matches!(t.status, Status::Lost)) || self.th.iter().all(|t| t.worker || matches!(t.status, Status::Done)) {
                self.deadlock = self.th.iter().any(|t| !t.worker && !matches!(t.status, Status::Done));
                self.finished = true;
                for t in &self.th {
                    t.cv.notify_all();
                }
                self.done.notify_all();
            }
            return;
        }
        let default = match if self.phase == self.alt.0 { self.alt.1 } else { self.policy } {
            0 => 0,
            1 => cands.iter().position(|&i| i != me && matches!(self.th[i].status, Status::Idle)).unwrap_or(0),
            2 => 1 % cands.len(),
            _ => cands.len() - 1,
        };
        let k = self.choose(cands.len(), default);
        let i = cands[k];
        self.turn = i;
        self.epoch += 1;
        self.switches += (i != me) as u64;
        if self.th[i].worker && !self.th[i].started {
            self.th[i].started = true;
            let ex = ex.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || worker(ex, i))
                .expect("spawn worker");
        } else {
            self.th[i].cv.notify_all();
        }
    }
    fn take(&mut self, me: usize) -> Option<Job> {
        if let Some(j) = self.th[me].private.pop_front() {
            return Some(j);
        }
        if let Some(j) = self.th[me].deque.pop_back() {
            return Some(j);
        }
        let r = self.th[me].reg;
        let mut src: Vec<usize> = vec![];
        if !self.regs[r].injected.is_empty() {
            src.push(NONE);
        }
        src.extend(self.regs[r].workers.iter().copied().filter(|&w| !self.th[w].deque.is_empty()));
        if src.is_empty() {
            return None;
        }
        let k = self.choose(src.len(), 0);
        match src[k] {
            NONE => self.regs[r].injected.pop_front(),
            w => self.th[w].deque.pop_front(),
        }
    }
    fn job(&mut self, run: Box<dyn FnOnce(bool) + Send>) -> Job {
        self.next_job += 1;
        Job { id: self.next_job, run }
    }
    fn add_reg(&mut self, n: usize) -> usize {
        let r = self.regs.len();
        let mut workers = vec![];
        for index in 0..n {
            workers.push(self.th.len());
            self.th.push(Th {
                reg: r,
                index,
                worker: true,
                status: Status::Idle,
                deque: VecDeque::new(),
                private: VecDeque::new(),
                started: false,
                tid: 0,
                cv: Arc::new(Condvar::new()),
            });
        }
        self.regs.push(Reg { workers, injected: VecDeque::new() });
        r
    }
    /// A thread that holds the turn but sleeps in the kernel waits for something the scheduler does not know:
    /// the others may go on.
    fn watchdog(&mut self, ex: &Arc<Exec>) {
        let t = self.turn;
        if t == NONE || !matches!(self.th[t].status, Status::Running) {
            return;
        }
        if self.watch.3.is_some_and(|x| x.elapsed() < Duration::from_millis(2)) {
            return;
        }
        let text = std::fs::read_to_string(format!("/proc/self/task/{}/status", self.th[t].tid)).unwrap_or_default();
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim().to_string()).unwrap_or_default();
        let asleep = get("State:").starts_with('S');
        let sw: u64 = get("voluntary_ctxt_switches:").parse().unwrap_or(0);
        if asleep && self.watch.0 == self.epoch && self.watch.1 == sw {
            self.watch.2 += 1;
        } else {
            self.watch.2 = 0;
        }
        self.watch = (self.epoch, sw, self.watch.2, Some(Instant::now()));
        if asleep && self.watch.2 >= 3 {
            self.watch.2 = 0;
            self.th[t].status = Status::Lost;
            self.turn = NONE;
            self.dispatch(ex, t);
        }
    }
}

type Guard<'a> = MutexGuard<'a, St>;
impl Exec {
    fn lock(&self) -> Guard<'_> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
}
/// Waits for the turn; false: the execution is over.
fn wait_turn<'a>(_ex: &'a Arc<Exec>, me: usize, mut st: Guard<'a>) -> (Guard<'a>, bool) {
    let cv = st.th[me].cv.clone();
    loop {
        if st.turn == me {
            st.th[me].status = Status::Running;
            return (st, true);
        }
        if st.finished {
            return (st, false);
        }
        st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
}
fn give_up<'a>(ex: &'a Arc<Exec>, me: usize, mut st: Guard<'a>, s: Status) -> (Guard<'a>, bool) {
    st.th[me].status = s;
    if st.turn == me || st.turn == NONE {
        st.dispatch(ex, me);
    }
    wait_turn(ex, me, st)
}
/// Another thread may go on here.
pub fn yield_point(ex: &Arc<Exec>, me: usize) {
    let st = ex.lock();
    if st.finished {
        return;
    }
    let _ = give_up(ex, me, st, Status::Ready);
}
/// Blocks until the latch is set; a worker executes other tasks meanwhile.
pub fn wait_latch(ex: &Arc<Exec>, me: usize, l: &Latch) {
    loop {
        let st = ex.lock();
        if l.load(Ordering::SeqCst) == 0 {
            return;
        }
        if st.finished {
            drop(st);
            panic!("rayon: deadlock");
        }
        let (mut st, ok) = give_up(ex, me, st, Status::Waiting(l.clone()));
        if l.load(Ordering::SeqCst) == 0 {
            return;
        }
        if !ok {
            drop(st);
            panic!("rayon: deadlock");
        }
        if st.th[me].worker {
            if let Some(j) = st.take(me) {
                drop(st);
                (j.run)(true);
            }
        }
    }
}
fn worker(ex: Arc<Exec>, me: usize) {
    CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), me)));
    {
        let mut st = ex.lock();
        st.th[me].tid = unsafe { libc::gettid() };
    }
    let mut st = ex.lock();
    loop {
        let (mut g, ok) = wait_turn(&ex, me, st);
        if !ok {
            g.th[me].status = Status::Done;
            break;
        }
        if let Some(j) = g.take(me) {
            drop(g);
            let _ = catch_unwind(AssertUnwindSafe(|| (j.run)(true)));
            g = ex.lock();
        }
        g.th[me].status = Status::Idle;
        if g.turn == me || g.turn == NONE {
            g.dispatch(&ex, me);
        }
        st = g;
    }
    CUR.with(|c| *c.borrow_mut() = None);
}

pub fn erase<'a>(f: Box<dyn FnOnce(bool) + Send + 'a>) -> Box<dyn FnOnce(bool) + Send + 'static> {
    // the caller waits for the job before its borrows end
    unsafe { std::mem::transmute(f) }
}
pub fn push(ex: &Arc<Exec>, me: usize, reg: usize, run: Box<dyn FnOnce(bool) + Send>, fifo: bool) -> u64 {
    let mut st = ex.lock();
    let j = st.job(run);
    let id = j.id;
    if st.th[me].worker && st.th[me].reg == reg && !fifo {
        st.th[me].deque.push_back(j);
    } else {
        st.regs[reg].injected.push_back(j);
    }
    id
}
pub fn push_private(ex: &Arc<Exec>, reg: usize, index: usize, run: Box<dyn FnOnce(bool) + Send>) {
    let mut st = ex.lock();
    let j = st.job(run);
    let w = st.regs[reg].workers[index];
    st.th[w].private.push_back(j);
}
/// Takes the job back if nobody has it.
pub fn pop_if(ex: &Arc<Exec>, me: usize, id: u64) -> Option<Job> {
    let mut st = ex.lock();
    if st.th[me].deque.back().is_some_and(|j| j.id == id) {
        return st.th[me].deque.pop_back();
    }
    None
}
pub fn run_job(j: Job, migrated: bool) {
    (j.run)(migrated)
}
pub fn is_worker(ex: &Arc<Exec>, me: usize) -> bool {
    ex.lock().th[me].worker
}
pub fn reg_of(ex: &Arc<Exec>, me: usize) -> usize {
    let st = ex.lock();
    st.th[me].reg
}
pub fn index_of(ex: &Arc<Exec>, me: usize) -> Option<usize> {
    let st = ex.lock();
    st.th[me].worker.then_some(st.th[me].index)
}
pub fn reg_len(ex: &Arc<Exec>, reg: usize) -> usize {
    ex.lock().regs[reg].workers.len()
}
pub fn has_pending(ex: &Arc<Exec>, me: usize) -> bool {
    !ex.lock().th[me].deque.is_empty()
}
pub fn pool_reg(ex: &Arc<Exec>, pool: u64, n: usize) -> usize {
    let mut st = ex.lock();
    if let Some(&r) = st.pools.get(&pool) {
        return r;
    }
    let n = if n == 0 { st.regs[0].workers.len() } else { n };
    let r = st.add_reg(n);
    st.pools.insert(pool, r);
    r
}
/// One pending task, if any, is executed on this worker.
pub fn execute_one(ex: &Arc<Exec>, me: usize, local: bool) -> bool {
    let mut st = ex.lock();
    if !st.th[me].worker || (local && st.th[me].deque.is_empty()) {
        return false;
    }
    let j = if local { st.th[me].deque.pop_back() } else { st.take(me) };
    drop(st);
    match j {
        Some(j) => {
            (j.run)(!local);
            true
        }
        None => false,
    }
}
/// Runs op on a worker of the registry.
pub fn in_worker<R: Send>(ex: &Arc<Exec>, me: usize, reg: usize, op: impl FnOnce(bool) -> R + Send) -> R {
    if is_worker(ex, me) && reg_of(ex, me) == reg {
        return op(false);
    }
    let l = latch(1);
    let out: Mutex<Option<std::thread::Result<R>>> = Mutex::new(None);
    {
        let (l, out) = (l.clone(), &out);
        let run = erase(Box::new(move |_| {
            let r = catch_unwind(AssertUnwindSafe(|| op(true)));
            *out.lock().unwrap() = Some(r);
            l.fetch_sub(1, Ordering::SeqCst);
        }));
        let mut st = ex.lock();
        let j = st.job(run);
        st.phase += 1;
        st.regs[reg].injected.push_back(j);
    }
    wait_latch(ex, me, &l);
    unwrap(out.into_inner().unwrap().unwrap())
}
pub fn unwrap<R>(r: std::thread::Result<R>) -> R {
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub struct Report {
    /// phases begun
    pub phases: u64,
    /// how often the turn passed from one thread to another
    pub switches: u64,
    pub deadlock: bool,
}
/// Runs the callers concurrently against a global pool of `threads` workers, scheduled by `chooser`, which is
/// asked to choose one of n ways to go on; 0 is what `policy` (in phase `alt.0`, `alt.1`) prefers.
pub fn run<R: Send>(
    threads: usize,
    policy: usize,
    alt: (u64, usize),
    callers: Vec<Box<dyn FnOnce() -> R + Send + '_>>,
    chooser: &mut (dyn FnMut(usize) -> usize + Send),
) -> (Vec<Result<R, Box<dyn Any + Send>>>, Report) {
    let chooser: *mut dyn FnMut(usize) -> usize = chooser;
    let chooser: *mut (dyn FnMut(usize) -> usize + 'static) = unsafe { std::mem::transmute(chooser) };
    let done = Arc::new(Condvar::new());
    let mut st = St {
        th: vec![],
        regs: vec![],
        pools: HashMap::new(),
        turn: NONE,
        next_job: 0,
        chooser: Chooser(chooser),
        policy,
        alt,
        phase: 0,
        finished: false,
        done: done.clone(),
        epoch: 0,
        watch: (0, 0, 0, None),
        deadlock: false,
        switches: 0,
    };
    let first = 0;
    for _ in 0..callers.len() {
        st.th.push(Th {
            reg: 0,
            index: 0,
            worker: false,
            status: Status::Ready,
            deque: VecDeque::new(),
            private: VecDeque::new(),
            started: true,
            tid: 0,
            cv: Arc::new(Condvar::new()),
        });
    }
    st.add_reg(threads);
    let ex = Arc::new(Exec { m: Mutex::new(st) });
    let mut out = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = callers
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                let ex = ex.clone();
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        CUR.with(|c| *c.borrow_mut() = Some((ex.clone(), i)));
                        let mut st = ex.lock();
                        st.th[i].tid = unsafe { libc::gettid() };
                        let _ = wait_turn(&ex, i, st);
                        let r = catch_unwind(AssertUnwindSafe(f));
                        let mut st = ex.lock();
                        st.th[i].status = Status::Done;
                        if st.turn == i || st.turn == NONE {
                            st.dispatch(&ex, i);
                        }
                        CUR.with(|c| *c.borrow_mut() = None);
                        r
                    })
                    .expect("spawn caller")
            })
            .collect();
        {
            let mut st = ex.lock();
            // all callers exist before the first one goes on
            while st.th.iter().any(|t| !t.worker && t.tid == 0) {
                drop(st);
                std::thread::yield_now();
                st = ex.lock();
            }
            st.dispatch(&ex, first);
        }
        let mut st = ex.lock();
        while !st.finished {
            let (g, to) = done.wait_timeout(st, Duration::from_millis(3)).unwrap_or_else(|e| e.into_inner());
            st = g;
            if to.timed_out() {
                st.watchdog(&ex);
            }
        }
        drop(st);
        for h in hs {
            out.push(h.join().unwrap_or_else(Err));
        }
    });
    let st = ex.lock();
    let rep = Report { phases: st.phase, switches: st.switches, deadlock: st.deadlock };
    drop(st);
    (out, rep)
}
