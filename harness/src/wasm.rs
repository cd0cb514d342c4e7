//! The model checker on a 32-bit target (wasm32): the same spaces and oracles, driven by harness-wasm/run.mjs.
#![allow(dead_code, unused_imports, unused_macros)]
mod engine;
pub mod encoding {
    // the derive macros refer to `crate::encoding`
    pub use sia::encoding::*;
}
mod alloc;
mod model;
mod props;

use engine::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

const _: () = assert!(usize::BITS == 32);

static THOROUGH: AtomicBool = AtomicBool::new(false);
pub fn thorough() -> bool {
    THOROUGH.load(SeqCst)
}

#[link(wasm_import_module = "env")]
extern "C" {
    /// Tells what is executed next; whether another worker is idle.
    fn each(choices: *const u32, n: usize) -> i32;
    /// Hands tasks to another worker.
    fn give(json: *const u8, n: usize);
}

static PROPS: OnceLock<Vec<(&'static props::Prop, Vec<Unit>)>> = OnceLock::new();
static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static IN: Mutex<Vec<u8>> = Mutex::new(Vec::new());

/// Where to put n bytes of input.
#[no_mangle]
pub extern "C" fn input(n: usize) -> *mut u8 {
    let mut i = IN.lock().unwrap();
    i.clear();
    i.resize(n, 0);
    i.as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn output() -> *const u8 {
    OUT.lock().unwrap().as_ptr()
}
fn out(v: Value) -> usize {
    let mut o = OUT.lock().unwrap();
    *o = serde_json::to_vec(&v).unwrap();
    o.len()
}

/// Lists the spaces.
#[no_mangle]
pub extern "C" fn start(thorough: u32) -> usize {
    THOROUGH.store(thorough != 0, SeqCst);
    install_panic_hook();
    let l = PROPS.get_or_init(|| props::all().into_iter().filter(|p| p.id != "C27").map(|p| (p, (p.units)())).collect());
    out(json!(l
        .iter()
        .enumerate()
        .flat_map(|(i, (p, us))| us.iter().enumerate().map(move |(k, u)| json!({
            "prop": p.id, "p": i, "u": k, "name": u.name, "max_dev": u.max_dev, "budget": u.budget,
            "nondet": u.nondet || u.serial,
        })))
        .collect::<Vec<_>>()))
}

/// Explores the subtrees of the given tasks.
#[no_mangle]
pub extern "C" fn explore(p: usize, u: usize, bound: u32) -> usize {
    let tasks: Vec<(Vec<u32>, u32, bool)> = serde_json::from_slice(&IN.lock().unwrap()).unwrap();
    let units = &PROPS.get().unwrap()[p].1;
    let r = explore_part(
        units,
        bound,
        u,
        tasks,
        |c| unsafe { each(c.as_ptr(), c.len()) != 0 },
        |t| {
            let j = serde_json::to_vec(&t).unwrap();
            unsafe { give(j.as_ptr(), j.len()) }
        },
    );
    let s = &r.stats;
    let mut h = STATES.lock().unwrap();
    *h = r.states;
    out(json!({
        "executions": s.executions, "evaluations": s.evals, "transitions": s.transitions, "longest": s.max_depth,
        "next_cost": r.next_cost, "last_execs": r.last_execs, "last_roots": r.last_roots,
        "states": h.len(), "states_at": h.as_ptr() as usize,
        "violations": r.violations.iter().map(|v| json!({"choices": v.prefix, "message": v.message})).collect::<Vec<_>>(),
        "errors": r.errors, "samples": r.samples,
    }))
}
static STATES: Mutex<Vec<u64>> = Mutex::new(Vec::new());

/// Executes one case.
#[no_mangle]
pub extern "C" fn one(p: usize, u: usize) -> usize {
    let choices: Vec<u32> = serde_json::from_slice(&IN.lock().unwrap()).unwrap();
    out(match replay(&PROPS.get().unwrap()[p].1[u], &choices) {
        Ok(_) => json!(null),
        Err(m) => json!(m),
    })
}
