//! Interleavings of two operations on two threads at every access to memory they share (C30).
//!
//! In a process of its own, the writable memory of the program (its statics and its heap) is protected
//! while operations run; every access to it faults, is noted, and is then executed as a single step.
//! An operation that writes nothing there cannot influence another one. For the others, a scheduler
//! decides at every access to memory that one of the two operations writes which of them goes on.
use super::Step;
use crate::alloc::arena;
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{fence, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

const SHM: usize = 0x5000_0000_0000;
const NREGIONS: usize = 16;
const LOG: usize = 8192;
const TRACE: usize = 1024;
const TEXT: usize = 3000;

#[repr(C)]
struct Thread {
    tid: AtomicI32,
    go: AtomicU32,
    parked: AtomicU32,
    done: AtomicU32,
    failed: AtomicU32,
    used: AtomicUsize, // end of the memory it took
    text_len: AtomicUsize,
    text: [u8; TEXT],
}
#[repr(C)]
struct Shared {
    regions: [(usize, usize); NREGIONS], // what is protected
    nregions: usize,
    mode: AtomicU32, // what a fault is
    events: AtomicU32,
    threads: [Thread; 2],
    w: [u64; LOG], // sorted granules that are written
    nw: usize,
    log: [u64; LOG], // granules noted in this run
    nlog: AtomicUsize,
    ntrace: AtomicUsize,
    points: AtomicU64,
    verdict: AtomicU32,
    left: AtomicU64,  // hash of what they left in w
    third: AtomicUsize, // the operation that failed afterwards, plus one
    thirds: AtomicU64, // how many were tried
}
const NOTE_WRITES: u32 = 1; // everything is read-only: note what is written
const NOTE_ACCESS: u32 = 2; // pages of w are inaccessible: note accesses to w
const SCHEDULE: u32 = 3; // pages of w are inaccessible, the rest read-only: stop at accesses to w
const HANG: u32 = 1;
const STUCK: u32 = 2;

fn shm() -> &'static mut Shared {
    unsafe { &mut *(SHM as *mut Shared) }
}
fn granule(a: usize) -> u64 {
    (a / 16) as u64
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(9) };
    static OPEN: Cell<[usize; 4]> = const { Cell::new([0; 4]) };
}
fn futex(a: &AtomicU32, op: libc::c_int, v: u32, ms: i64) {
    let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
    let tp = if ms < 0 { std::ptr::null() } else { &t as *const _ };
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, op, v, tp, 0usize, 0u32) };
}
fn wait(a: &AtomicU32, while_is: u32, ms: i64) {
    futex(a, libc::FUTEX_WAIT, while_is, ms)
}
fn wake(a: &AtomicU32) {
    futex(a, libc::FUTEX_WAKE, i32::MAX as u32, -1)
}
fn event() {
    let s = shm();
    s.events.fetch_add(1, SeqCst);
    wake(&s.events);
}
/// Stops until the scheduler lets this thread go on.
fn park(me: usize) {
    let t = &shm().threads[me];
    t.parked.store(1, SeqCst);
    event();
    while t.go.load(SeqCst) == 0 {
        wait(&t.go, 0, -1);
    }
    t.go.store(0, SeqCst);
}
fn in_w(addr: usize) -> bool {
    let s = shm();
    let (lo, hi) = (granule(addr), granule(addr + 63));
    let (mut a, mut b) = (0, s.nw);
    while a < b {
        let m = (a + b) / 2;
        if s.w[m] < lo {
            a = m + 1
        } else {
            b = m
        }
    }
    a < s.nw && s.w[a] <= hi
}
fn page_in_w(page: usize) -> bool {
    let s = shm();
    s.w[..s.nw].iter().any(|g| *g as usize * 16 & !4095 == page)
}
fn closed(page: usize) -> libc::c_int {
    match shm().mode.load(SeqCst) {
        NOTE_WRITES => libc::PROT_READ,
        m if page_in_w(page) => {
            let _ = m;
            libc::PROT_NONE
        }
        NOTE_ACCESS => libc::PROT_READ | libc::PROT_WRITE,
        _ => libc::PROT_READ,
    }
}
unsafe extern "C" fn on_fault(_: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = shm();
    let addr = (*info).si_addr() as usize;
    let known = s.regions[..s.nregions].iter().any(|(a, b)| (*a..*b).contains(&addr));
    let mode = s.mode.load(SeqCst);
    let me = ME.get();
    if !known || mode == 0 || me > 1 {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    }
    let page = addr & !4095;
    let note = |s: &mut Shared| {
        let n = s.nlog.fetch_add(1, SeqCst);
        if n < LOG {
            s.log[n] = granule(addr);
        }
    };
    match mode {
        NOTE_WRITES => note(s),
        NOTE_ACCESS => {
            if in_w(addr) {
                note(s)
            }
        }
        _ => {
            if in_w(addr) {
                s.points.fetch_add(1, SeqCst);
                park(me)
            } else if !page_in_w(page) {
                note(s) // a write nobody has seen before
            }
        }
    }
    let mut o = OPEN.get();
    if let Some(i) = o.iter().position(|p| *p == 0 || *p == page) {
        o[i] = page;
    }
    OPEN.set(o);
    libc::mprotect(page as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE);
    let u = &mut *(ctx as *mut libc::ucontext_t);
    u.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}
unsafe extern "C" fn on_step(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let u = &mut *(ctx as *mut libc::ucontext_t);
    u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    let o = OPEN.get();
    OPEN.set([0; 4]);
    for p in o {
        if p != 0 {
            libc::mprotect(p as *mut _, 4096, closed(p));
        }
    }
}
/// Puts a protection mode into force; only called while no operation runs.
unsafe fn protect(mode: u32) {
    let s = shm();
    s.mode.store(mode, SeqCst);
    fence(SeqCst);
    for (a, b) in &s.regions[..s.nregions] {
        let all = match mode {
            0 | NOTE_ACCESS => libc::PROT_READ | libc::PROT_WRITE,
            _ => libc::PROT_READ,
        };
        libc::mprotect(*a as *mut _, b - a, all);
    }
    if mode >= NOTE_ACCESS {
        let mut last = 0;
        for g in &s.w[..s.nw] {
            let p = *g as usize * 16 & !4095;
            if p != last {
                libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
                last = p;
            }
        }
    }
}
/// The program's writable memory.
fn regions() -> Vec<(usize, usize)> {
    let exe = std::env::current_exe().unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut v: Vec<(usize, usize)> = vec![];
    let mut end = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let path = f.get(5).copied().unwrap_or("");
        let mine = std::path::Path::new(path) == exe;
        if f[1].starts_with("rw") && (mine || path == "[heap]" || path.is_empty() && a == end) {
            v.push((a, b));
        }
        end = if mine { b } else { 0 };
    }
    v
}
fn say(t: &mut Thread, m: &str) {
    let n = m.len().min(TEXT);
    t.text[..n].copy_from_slice(&m.as_bytes()[..n]);
    t.text_len.store(n, SeqCst);
}
fn thread_body(me: usize, s: &'static Step) {
    let mut place = super::Place::default();
    ME.set(me);
    OPEN.set([0; 4]);
    let t = &mut shm().threads[me];
    t.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    arena::NEXT.set(arena::BASE + me * arena::SIZE);
    park(me);
    let r = super::guarded(|| (s.run)(&mut place)).unwrap_or_else(|m| Err(format!("it panics: {m}")));
    if let Err(m) = r {
        say(t, &m);
        t.failed.store(1, SeqCst);
    }
    t.used.store(arena::NEXT.get(), SeqCst);
    t.done.store(1, SeqCst);
    event();
    // the end of a thread would touch memory of the C library
    let never = AtomicU32::new(0);
    loop {
        wait(&never, 0, -1);
    }
}
/// Whether a thread waits inside the kernel.
fn sleeps(tid: i32) -> bool {
    // no allocation, no statics: operations are under way
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for i in (16..26).rev() {
        path[i] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    // leading zeros are not accepted by /proc
    let z = (16..25).take_while(|i| path[*i] == b'0').count();
    path.copy_within(16 + z.., 16);
    let mut buf = [0u8; 128];
    let got = unsafe {
        let f = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if f < 0 {
            return false;
        }
        let g = libc::read(f, buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(f);
        g
    };
    let b = &buf[..got.max(0) as usize];
    match b.iter().rposition(|c| *c == b')') {
        Some(i) => b.get(i + 2) == Some(&b'S'),
        None => false,
    }
}
/// Lets a thread go on; true: it reached its next point or its end, false: it waits for something.
fn grant(k: usize) -> bool {
    let s = shm();
    let t = &s.threads[k];
    t.parked.store(0, SeqCst);
    t.go.store(1, SeqCst);
    wake(&t.go);
    until_settled(k)
}
fn until_settled(k: usize) -> bool {
    let s = shm();
    let t = &s.threads[k];
    let mut asleep = 0;
    loop {
        let e = s.events.load(SeqCst);
        if t.parked.load(SeqCst) == 1 || t.done.load(SeqCst) == 1 {
            return true;
        }
        wait(&s.events, e, 2);
        if s.events.load(SeqCst) == e && t.go.load(SeqCst) == 0 {
            asleep = if sleeps(t.tid.load(SeqCst)) { asleep + 1 } else { 0 };
            if asleep == 3 {
                return false;
            }
        }
    }
}
/// One schedule: the current thread goes on, except at the given points where the other one may.
fn schedule(prefix: &[u32], first: usize) {
    let s = shm();
    let mut cur = first;
    let mut run = 0u32;
    let mut total = 0u64;
    let mut blocked = [false; 2];
    let mut idle = 0;
    loop {
        let done = [s.threads[0].done.load(SeqCst) >= 1, s.threads[1].done.load(SeqCst) >= 1];
        if done == [true; 2] {
            break;
        }
        for k in 0..2 {
            if blocked[k] && (done[k] || s.threads[k].parked.load(SeqCst) == 1) {
                blocked[k] = false;
            }
        }
        let can = [!done[0] && !blocked[0], !done[1] && !blocked[1]];
        if can == [false; 2] {
            // someone may just be waking up
            idle += 1;
            if idle > 500 {
                s.verdict.store(HANG, SeqCst);
                return;
            }
            let e = s.events.load(SeqCst);
            wait(&s.events, e, 10);
            continue;
        }
        idle = 0;
        if !can[cur] || run >= 400 && can[1 - cur] {
            cur = 1 - cur;
            run = 0;
        } else if can[1 - cur] {
            let n = s.ntrace.load(SeqCst);
            s.ntrace.store(n + 1, SeqCst);
            if prefix.contains(&(n as u32)) {
                cur = 1 - cur;
                run = 0;
            }
        }
        run += 1;
        total += 1;
        if total > 100_000 {
            s.verdict.store(STUCK, SeqCst);
            return;
        }
        if !grant(cur) {
            blocked[cur] = true;
        }
    }
}
/// What the operations left behind must not matter to a later one; states seen before are not tried again.
fn afterwards(later: &[&'static Step], seen: &HashSet<u64>) {
    let s = shm();
    unsafe { protect(0) };
    let mut h = 0xcbf29ce484222325u64;
    for g in &s.w[..s.nw] {
        let b = unsafe { std::slice::from_raw_parts((*g as usize * 16) as *const u8, 16) };
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    // including the memory they allocated
    for (i, t) in s.threads.iter().enumerate() {
        let from = arena::BASE + i * arena::SIZE;
        let n = t.used.load(SeqCst).saturating_sub(from) / 8;
        for x in unsafe { std::slice::from_raw_parts(from as *const u64, n) } {
            h = (h ^ *x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
        }
    }
    s.left.store(h, SeqCst);
    if seen.contains(&h) {
        return;
    }
    for (i, o) in later.iter().enumerate() {
        s.thirds.fetch_add(1, SeqCst);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(10);
            }
            arena::NEXT.set(arena::BASE + 2 * arena::SIZE);
            let mut place = super::Place::default();
            let r = super::guarded(|| (o.run)(&mut place)).unwrap_or_else(|m| Err(format!("it panics: {m}")));
            if let Err(m) = &r {
                say(&mut shm().threads[0], m);
            }
            unsafe { libc::_exit(r.is_err() as i32) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            if libc::WIFSIGNALED(st) {
                say(&mut s.threads[0], if libc::WTERMSIG(st) == libc::SIGALRM { "it does not finish" } else { "it is ended by a signal" });
            }
            s.third.store(i + 1, SeqCst);
            return;
        }
    }
}
struct Outcome {
    log: Vec<u64>,
    choices: usize,
    points: u64,
    left: u64,
    thirds: u64,
    bad: Option<String>,
}
/// Runs one or two operations in a child process.
fn child(ops: &[&'static Step], mode: u32, w: &[u64], prefix: &[u32], first: usize, later: &[&'static Step], seen: &HashSet<u64>) -> Outcome {
    let s = shm();
    let w = &w[..w.len().min(LOG)];
    s.w[..w.len()].copy_from_slice(w);
    s.nw = w.len();
    s.nlog.store(0, SeqCst);
    s.ntrace.store(0, SeqCst);
    s.points.store(0, SeqCst);
    s.verdict.store(0, SeqCst);
    s.events.store(0, SeqCst);
    s.left.store(0, SeqCst);
    s.third.store(0, SeqCst);
    s.thirds.store(0, SeqCst);
    for t in &mut s.threads {
        for a in [&t.go, &t.parked, &t.done, &t.failed] {
            a.store(0, SeqCst);
        }
        t.text_len.store(0, SeqCst);
        t.tid.store(0, SeqCst);
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
        }
        for (i, o) in ops.iter().enumerate() {
            let o: &'static Step = o;
            std::thread::Builder::new().stack_size(4 << 20).spawn(move || thread_body(i, o)).unwrap();
        }
        for i in 0..ops.len() {
            until_settled(i);
        }
        unsafe { protect(mode) };
        if ops.len() == 1 {
            s.threads[1].done.store(1, SeqCst);
        }
        schedule(prefix, first);
        if s.verdict.load(SeqCst) == 0 && s.threads.iter().all(|t| t.failed.load(SeqCst) == 0) && !later.is_empty() {
            afterwards(later, seen);
        }
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let names = || ops.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(" and ");
    let mut bad = None;
    for (i, t) in s.threads.iter().enumerate().take(ops.len()) {
        if t.failed.load(SeqCst) == 1 {
            let m = String::from_utf8_lossy(&t.text[..t.text_len.load(SeqCst)]).into_owned();
            bad = Some(format!("{}: {m}", ops[i].name));
        }
    }
    if let Some(i) = s.third.load(SeqCst).checked_sub(1) {
        let t = &s.threads[0];
        let m = String::from_utf8_lossy(&t.text[..t.text_len.load(SeqCst)]).into_owned();
        bad = Some(format!("{}, performed afterwards: {m}", later[i].name));
    }
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        bad = bad.or(Some(match sig {
            libc::SIGALRM => format!("{} did not finish", names()),
            _ => format!("{} were ended by signal {sig}", names()),
        }));
    } else {
        bad = bad.or(match s.verdict.load(SeqCst) {
            HANG => Some(format!("{} wait for each other forever", names())),
            STUCK => Some(format!("{} do not finish", names())),
            _ => None,
        });
    }
    Outcome {
        log: s.log[..s.nlog.load(SeqCst).min(LOG)].to_vec(),
        choices: s.ntrace.load(SeqCst).min(TRACE),
        points: s.points.load(SeqCst),
        left: s.left.load(SeqCst),
        thirds: s.thirds.load(SeqCst),
        bad,
    }
}
fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v.dedup();
    v
}

pub struct Report {
    pub runs: u64,
    pub points: u64,
    pub writes: usize,
    pub pairs: u64,
    pub complete: bool,
    pub bad: Option<String>,
}
/// All schedules of operation `a` with the others, up to a number of preemptions.
fn explore(steps: &'static [Step], a: usize, others: &[usize], when: &str, preemptions: usize, budget: u64) -> Report {
    let mut r = Report { runs: 0, points: 0, writes: 0, pairs: 0, complete: true, bad: None };
    let sa = &steps[a];
    let none = HashSet::new();
    let o = child(&[sa], NOTE_WRITES, &[], &[], 0, &[], &none);
    r.runs += 1;
    if o.bad.is_some() {
        r.bad = o.bad.map(|m| format!("{m} ({when})"));
        return r;
    }
    let wa = sorted(o.log);
    r.writes = wa.len();
    if wa.is_empty() {
        return r;
    }
    let mut users = vec![];
    for z in others {
        let o = child(&[&steps[*z]], NOTE_ACCESS, &wa, &[], 0, &[], &none);
        r.runs += 1;
        if !o.log.is_empty() || o.bad.is_some() {
            users.push(*z); // it uses something that a writes
        }
    }
    let later: Vec<&'static Step> = users.iter().map(|z| &steps[*z]).collect();
    for z in &users {
        let sz = &steps[*z];
        if r.runs > budget {
            r.complete = false;
            break;
        }
        let mut seen = HashSet::new();
        r.pairs += 1;
        let o = child(&[sz], NOTE_WRITES, &[], &[], 0, &[], &none);
        r.runs += 1;
        let mut w = wa.clone();
        w.extend(o.log);
        let mut w = sorted(w);
        'again: for _ in 0..4 {
            seen.clear();
            // levels of preemptions
            let mut level: Vec<(usize, Vec<u32>)> = vec![(0, vec![]), (1, vec![])];
            for d in 0..=preemptions {
                let mut next = vec![];
                for (first, prefix) in &level {
                    let o = child(&[sa, sz], SCHEDULE, &w, prefix, *first, &later, &seen);
                    r.runs += 1 + o.thirds;
                    seen.insert(o.left);
                    r.points += o.points;
                    if let Some(m) = o.bad {
                        let taken = prefix;
                        r.bad = Some(format!("{m} (with \"{}\" and \"{}\" under way on two threads {when}, the {} one first, changing over at the shared accesses {taken:?})", sa.name, sz.name, ["first", "second"][*first]));
                        return r;
                    }
                    if !o.log.is_empty() {
                        // memory is written that neither writes on its own
                        let n = w.len();
                        w.extend(o.log);
                        w = sorted(w);
                        if w.len() > n && w.len() < LOG {
                            continue 'again;
                        }
                    }
                    if d == preemptions {
                        continue;
                    }
                    for i in prefix.last().map_or(0, |l| l + 1)..o.choices as u32 {
                        let mut p = prefix.clone();
                        p.push(i);
                        next.push((*first, p));
                    }
                }
                if d < preemptions && r.runs + next.len() as u64 > budget {
                    r.complete = d > 0 && r.complete;
                    if d > 0 {
                        break;
                    }
                    next.truncate(budget.saturating_sub(r.runs) as usize);
                }
                level = next;
            }
            break;
        }
    }
    r
}

/// A process that explores operation `a`: prints its report.
pub fn main(steps: fn() -> &'static [Step], a: usize, deep: bool) -> i32 {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // one heap
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
        for (at, n) in [(SHM, std::mem::size_of::<Shared>()), (arena::BASE, arena::SIZE * arena::COUNT)] {
            let share = if at == SHM { libc::MAP_SHARED } else { libc::MAP_PRIVATE | libc::MAP_NORESERVE };
            let p = libc::mmap(at as *mut _, n, libc::PROT_READ | libc::PROT_WRITE, share | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
            assert_eq!(p as usize, at, "mmap");
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        sa.sa_sigaction = on_fault as *const () as usize;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_step as *const () as usize;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let steps = steps();
    let light = |i: usize| !steps[i].name.starts_with("root of");
    let s = shm();
    let mut totals = Report { runs: 0, points: 0, writes: 0, pairs: 0, complete: true, bad: None };
    if light(a) {
        for warm in [false, true] {
            if warm {
                let mut p = super::Place::default();
                for (i, st) in steps.iter().enumerate() {
                    if light(i) {
                        let _ = super::guarded(|| (st.run)(&mut p));
                    }
                }
            }
            // the heap must not end within what is protected
            let v = regions();
            s.nregions = v.len().min(NREGIONS);
            for (i, r) in v.iter().enumerate().take(NREGIONS) {
                s.regions[i] = *r;
            }
            let near: Vec<usize> = (1..=3).map(|d| (a + d) % steps.len()).chain([a]).filter(|i| light(*i)).collect();
            let all: Vec<usize> = (0..steps.len()).filter(|i| light(*i)).collect();
            let (others, when) = if warm || deep { (&all, "after others") } else { (&near, "before all others") };
            let r = explore(steps, a, others, if warm { when } else { "before all others" }, if deep { 2 } else { 1 }, if deep { 20_000 } else { 1500 });
            totals.runs += r.runs;
            totals.points += r.points;
            totals.writes = totals.writes.max(r.writes);
            if warm {
                println!("WARM {}", r.writes);
            }
            totals.pairs += r.pairs;
            totals.complete &= r.complete;
            if r.bad.is_some() {
                totals.bad = r.bad;
                break;
            }
        }
    }
    println!("REPORT {} {} {} {} {}", totals.runs, totals.points, totals.writes, totals.pairs, totals.complete);
    if let Some(m) = totals.bad {
        println!("BAD {}", m.replace('\n', " "));
    }
    0
}
