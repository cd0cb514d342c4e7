//! rayon-core's interface, executed under the schedule that an explorer chooses (see sched.rs).
//! Outside such an execution, everything runs on the calling thread.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub mod sched;
use sched::{current, Latch};

// ------------------------------------------------------------------ join

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
impl fmt::Debug for FnContext {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FnContext").field("migrated", &self.migrated).finish()
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let Some((ex, me)) = current() else {
        return (a(FnContext::new(false)), b(FnContext::new(false)));
    };
    let reg = sched::reg_of(&ex, me);
    sched::in_worker(&ex, me, reg, move |injected| {
        let (ex, me) = current().expect("worker");
        let l = sched::latch(1);
        let out: Mutex<Option<std::thread::Result<RB>>> = Mutex::new(None);
        let id = {
            let (l, out) = (l.clone(), &out);
            let run = sched::erase(Box::new(move |migrated| {
                let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(migrated))));
                *out.lock().unwrap() = Some(r);
                l.fetch_sub(1, Ordering::SeqCst);
            }));
            sched::push(&ex, me, reg, run, false)
        };
        sched::yield_point(&ex, me);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        match sched::pop_if(&ex, me, id) {
            Some(j) => sched::run_job(j, injected),
            None => sched::wait_latch(&ex, me, &l),
        }
        let ra = sched::unwrap(ra);
        let rb = out.into_inner().unwrap().expect("joined");
        (ra, sched::unwrap(rb))
    })
}

// ------------------------------------------------------------------ scopes

struct Base {
    reg: usize,
    latch: Latch,
    panic: Arc<Mutex<Option<Box<dyn Any + Send>>>>,
}
impl Base {
    fn new(reg: usize) -> Self {
        Base { reg, latch: sched::latch(0), panic: Arc::new(Mutex::new(None)) }
    }
    fn wrap<'s>(&self, f: impl FnOnce() + Send + 's) -> Box<dyn FnOnce(bool) + Send> {
        self.latch.fetch_add(1, Ordering::SeqCst);
        let (l, p) = (self.latch.clone(), self.panic.clone());
        sched::erase(Box::new(move |_| {
            if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                p.lock().unwrap().get_or_insert(e);
            }
            l.fetch_sub(1, Ordering::SeqCst);
        }))
    }
    fn spawn<'s>(&self, f: impl FnOnce() + Send + 's, fifo: bool) {
        let run = self.wrap(f);
        match current() {
            Some((ex, me)) => {
                sched::push(&ex, me, self.reg, run, fifo);
                sched::yield_point(&ex, me);
            }
            None => run(false),
        }
    }
    fn spawn_broadcast<'s>(&self, f: impl Fn(BroadcastContext<'_>) + Send + Sync + 's) {
        match current() {
            Some((ex, me)) => {
                let f = Arc::new(f);
                for i in 0..sched::reg_len(&ex, self.reg) {
                    let f = f.clone();
                    let run = self.wrap(move || f(BroadcastContext::here()));
                    sched::push_private(&ex, self.reg, i, run);
                }
                sched::yield_point(&ex, me);
            }
            None => self.wrap(move || f(BroadcastContext::here()))(false),
        }
    }
    fn finish<R>(&self, r: std::thread::Result<R>) -> R {
        if let Some((ex, me)) = current() {
            sched::wait_latch(&ex, me, &self.latch);
        }
        let p = self.panic.lock().unwrap().take();
        if let Some(p) = p {
            resume_unwind(p);
        }
        sched::unwrap(r)
    }
}
macro_rules! scope_type {
    ($name:ident, $spawn:ident, $fifo:literal) => {
        pub struct $name<'scope> {
            base: Base,
            #[allow(clippy::type_complexity)]
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $name<'scope> {
            fn new(reg: usize) -> Self {
                $name { base: Base::new(reg), marker: PhantomData }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let me = Ptr(self as *const Self);
                self.base.spawn(move || { let me = me; body(unsafe { me.get() }) }, $fifo)
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let me = Ptr(self as *const Self);
                self.base.spawn_broadcast(move |c| { let me = &me; body(unsafe { me.get() }, c) })
            }
        }
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish()
            }
        }
    };
}
struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    unsafe fn get(&self) -> &T {
        &*self.0
    }
}
scope_type!(Scope, spawn, false);
scope_type!(ScopeFifo, spawn_fifo, true);

fn here_reg() -> usize {
    current().map_or(0, |(ex, me)| sched::reg_of(&ex, me))
}
fn on_worker<R: Send>(reg: Option<usize>, op: impl FnOnce() -> R + Send) -> R {
    match current() {
        Some((ex, me)) => {
            let reg = reg.unwrap_or_else(|| sched::reg_of(&ex, me));
            sched::in_worker(&ex, me, reg, |_| op())
        }
        None => op(),
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    on_worker(None, || in_place_scope(op))
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    on_worker(None, || in_place_scope_fifo(op))
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    scope_on(here_reg(), op)
}
fn scope_on<'scope, R>(reg: usize, op: impl FnOnce(&Scope<'scope>) -> R) -> R {
    let s = Scope::new(reg);
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.base.finish(r)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    scope_fifo_on(here_reg(), op)
}
fn scope_fifo_on<'scope, R>(reg: usize, op: impl FnOnce(&ScopeFifo<'scope>) -> R) -> R {
    let s = ScopeFifo::new(reg);
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.base.finish(r)
}

// ------------------------------------------------------------------ spawn, broadcast

fn spawn_on<F: FnOnce() + Send + 'static>(reg: Option<usize>, func: F, fifo: bool) {
    match current() {
        Some((ex, me)) => {
            let reg = reg.unwrap_or_else(|| sched::reg_of(&ex, me));
            sched::push(&ex, me, reg, Box::new(move |_| func()), fifo);
            sched::yield_point(&ex, me);
        }
        None => func(),
    }
}
pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn_on(None, func, false)
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn_on(None, func, true)
}
pub struct BroadcastContext<'a> {
    index: usize,
    num: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn here() -> Self {
        BroadcastContext { index: current_thread_index().unwrap_or(0), num: current_num_threads(), _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.num
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).field("num_threads", &self.num).finish()
    }
}
fn broadcast_on<OP, R>(reg: Option<usize>, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let Some((ex, me)) = current() else {
        return vec![op(BroadcastContext::here())];
    };
    let reg = reg.unwrap_or_else(|| sched::reg_of(&ex, me));
    let n = sched::reg_len(&ex, reg);
    let l = sched::latch(n);
    let out: Vec<Mutex<Option<std::thread::Result<R>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    for (i, o) in out.iter().enumerate() {
        let (l, op) = (l.clone(), &op);
        let run = sched::erase(Box::new(move |_| {
            *o.lock().unwrap() = Some(catch_unwind(AssertUnwindSafe(|| op(BroadcastContext::here()))));
            l.fetch_sub(1, Ordering::SeqCst);
        }));
        sched::push_private(&ex, reg, i, run);
    }
    sched::wait_latch(&ex, me, &l);
    out.into_iter().map(|o| sched::unwrap(o.into_inner().unwrap().expect("broadcast"))).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_on(None, op)
}
fn spawn_broadcast_on<OP>(reg: Option<usize>, op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    match current() {
        Some((ex, me)) => {
            let reg = reg.unwrap_or_else(|| sched::reg_of(&ex, me));
            let op = Arc::new(op);
            for i in 0..sched::reg_len(&ex, reg) {
                let op = op.clone();
                sched::push_private(&ex, reg, i, Box::new(move |_| op(BroadcastContext::here())));
            }
            sched::yield_point(&ex, me);
        }
        None => op(BroadcastContext::here()),
    }
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    spawn_broadcast_on(None, op)
}

// ------------------------------------------------------------------ threads

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    current().map_or(1, |(ex, me)| sched::reg_len(&ex, sched::reg_of(&ex, me)))
}
pub fn current_thread_index() -> Option<usize> {
    current().and_then(|(ex, me)| sched::index_of(&ex, me))
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    let (ex, me) = current()?;
    sched::is_worker(&ex, me).then(|| sched::has_pending(&ex, me))
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
fn do_yield(local: bool) -> Option<Yield> {
    let (ex, me) = current()?;
    if !sched::is_worker(&ex, me) {
        return None;
    }
    sched::yield_point(&ex, me);
    Some(if sched::execute_one(&ex, me, local) { Yield::Executed } else { Yield::Idle })
}
pub fn yield_now() -> Option<Yield> {
    do_yield(false)
}
pub fn yield_local() -> Option<Yield> {
    do_yield(true)
}

// ------------------------------------------------------------------ pools

pub struct ThreadPool {
    id: u64,
    n: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.n).field("id", &self.id).finish()
    }
}
static POOLS: AtomicU64 = AtomicU64::new(1);
impl ThreadPool {
    fn make(n: usize) -> Self {
        ThreadPool { id: POOLS.fetch_add(1, Ordering::SeqCst), n }
    }
    fn reg(&self) -> Option<usize> {
        current().map(|(ex, _)| sched::pool_reg(&ex, self.id, self.n))
    }
    fn mine(&self) -> bool {
        current().is_some_and(|(ex, me)| sched::is_worker(&ex, me) && Some(sched::reg_of(&ex, me)) == self.reg())
    }
    #[deprecated(note = "Use `ThreadPoolBuilder::build`")]
    #[allow(deprecated)]
    pub fn new(c: Configuration) -> Result<ThreadPool, Box<dyn Error>> {
        c.build().map_err(|e| e as Box<dyn Error>)
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        on_worker(self.reg(), op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_on(self.reg(), op)
    }
    pub fn current_num_threads(&self) -> usize {
        match (current(), self.reg()) {
            (Some((ex, _)), Some(r)) => sched::reg_len(&ex, r),
            _ => self.n.max(1),
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        if self.mine() {
            current_thread_index()
        } else {
            None
        }
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        if self.mine() {
            current_thread_has_pending_tasks()
        } else {
            None
        }
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        scope_on(self.reg().unwrap_or(0), op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        scope_fifo_on(self.reg().unwrap_or(0), op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_on(self.reg(), op, false)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_on(self.reg(), op, true)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast_on(self.reg(), op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        self.mine().then(yield_now).flatten()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        self.mine().then(yield_local).flatten()
    }
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").field("index", &self.index).finish()
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool error")
    }
}
impl Error for ThreadPoolBuildError {}

pub trait ThreadSpawn {}
#[derive(Debug, Default)]
pub struct DefaultSpawn;
impl ThreadSpawn for DefaultSpawn {}
#[derive(Debug)]
pub struct CustomSpawn<F>(#[allow(dead_code)] F);
impl<F> ThreadSpawn for CustomSpawn<F> where F: FnMut(ThreadBuilder) -> io::Result<()> {}

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    spawn: S,
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").field("num_threads", &self.n).finish()
    }
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, spawn: DefaultSpawn }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(with_pool(&ThreadPool::make(self.n)))
    }
}
impl<S: ThreadSpawn> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool::make(self.n))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        let _ = self.spawn;
        ThreadPoolBuilder { n: self.n, spawn: CustomSpawn(spawn) }
    }
    pub fn thread_name<F>(self, _closure: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    #[deprecated(note = "use `scope_fifo` and `spawn_fifo` for similar effect")]
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}
#[deprecated(note = "Use `ThreadPoolBuilder`")]
#[derive(Debug, Default)]
pub struct Configuration {
    n: usize,
}
#[allow(deprecated)]
impl Configuration {
    pub fn new() -> Configuration {
        Configuration { n: 0 }
    }
    pub fn build(self) -> Result<ThreadPool, Box<dyn Error + 'static>> {
        Ok(ThreadPool::make(self.n))
    }
    pub fn num_threads(mut self, n: usize) -> Configuration {
        self.n = n;
        self
    }
}
#[allow(deprecated)]
pub fn initialize(_c: Configuration) -> Result<(), Box<dyn Error>> {
    Ok(())
}
