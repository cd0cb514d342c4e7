//! mc - bounded model checker for /repo.
//!
//!   mc check PROP      explore the property's spaces (supervises a worker process)
//!   mc worker PROP OUT (internal) explore in this process, write the outcome to OUT
//!   mc one PROP UNIT FILE (internal) execute one choice sequence
//!   mc replay FILE     re-execute a recorded violation
//!   mc list            list properties
#![allow(dead_code, unused_imports, unused_macros)]
mod engine;
pub mod encoding {
    // the derive macros refer to `crate::encoding`
    pub use sia::encoding::*;
}
mod alloc;
mod model;
mod props;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG_S: u64 = 60;

fn root() -> PathBuf {
    std::env::var("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
fn profile() -> &'static str {
    if cfg!(all(feature = "sched", not(feature = "controlled"))) {
        "real"
    } else if cfg!(debug_assertions) {
        "checked"
    } else {
        "wrapping"
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => check(&a[2]),
        Some("worker") if a.len() == 4 => worker(&a[2], &a[3]),
        Some("one") if a.len() == 5 => one(&a[2], &a[3], &a[4]),
        Some("replay") if a.len() == 3 => replay_file(&a[2]),
        #[cfg(feature = "pure")]
        Some("race") if a.len() == 3 => {
            install_panic_hook();
            props::pure::race_main(a[2].parse().unwrap())
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.profiles.join("+"));
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROP | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> &'static props::Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

// ------------------------------------------------------------------ worker

fn worker(id: &str, out: &str) -> i32 {
    let p = find(id);
    if let Ok(s) = std::env::var("MC_SLOTS") {
        use_slots(map_slots(&s, false));
    }
    install_panic_hook();
    let units = (p.units)();
    let deadline = if thorough() { 1500.0 } else { 150.0 };
    let o = explore(&units, deadline);
    let stats: Vec<Value> = o
        .stats
        .iter()
        .map(|s| {
            json!({
                "unit": s.name, "executions": s.executions, "evaluations": s.evals, "states": s.states,
                "transitions": s.transitions, "deviation_bound": s.bound, "space_exhausted": s.complete,
                "next_level_estimate": s.next_level, "longest_choice_sequence": s.max_depth,
            })
        })
        .collect();
    let v: Vec<Value> = o
        .violations
        .iter()
        .map(|v| json!({"unit": v.unit_name, "choices": v.prefix, "message": v.message}))
        .collect();
    let samples: Vec<Value> = o
        .samples
        .iter()
        .map(|(k, v)| json!({"case": k, "value": v}))
        .collect();
    let j = json!({"stats": stats, "violations": v, "engine_errors": o.engine_errors, "samples": samples, "capped": o.capped});
    std::fs::write(out, serde_json::to_vec(&j).unwrap()).expect("write outcome");
    0
}

fn unit_by_name(p: &props::Prop, name: &str) -> Option<Unit> {
    (p.units)().into_iter().find(|u| u.name == name)
}

fn one(id: &str, unit: &str, file: &str) -> i32 {
    install_panic_hook();
    let p = find(id);
    let u = match unit.parse::<usize>() {
        Ok(i) => (p.units)().into_iter().nth(i),
        Err(_) => unit_by_name(p, unit),
    };
    let Some(u) = u else {
        eprintln!("unknown unit {unit}");
        return 2;
    };
    let prefix: Vec<u32> = serde_json::from_slice(&std::fs::read(file).expect("choices")).expect("choices");
    // same stack size as the exploring threads
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let name = u.name.clone();
            (name, replay(&u, &prefix))
        })
        .unwrap()
        .join();
    match r {
        Ok((n, Ok(_))) => {
            println!("{n}: the property holds on this case");
            0
        }
        Ok((n, Err(m))) => {
            println!("{n}: {m}");
            1
        }
        Err(_) => 2,
    }
}

fn exe_for(profile_name: &str) -> PathBuf {
    let me = std::env::current_exe().expect("current exe");
    if profile_name == profile() {
        return me;
    }
    // <group>-<profile>
    let name = me.file_name().unwrap().to_str().unwrap();
    let group = name.rsplit_once('-').map_or(name, |x| x.0);
    me.with_file_name(format!("{group}-{profile_name}"))
}

fn replay_file(path: &str) -> i32 {
    let j: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let prof = j["profile"].as_str().unwrap_or("checked");
    let tmp = std::env::temp_dir().join(format!("mc-replay-{}.json", std::process::id()));
    std::fs::write(&tmp, j["choices"].to_string()).unwrap();
    let (st, text) = run_one_child(
        prof,
        j["property"].as_str().unwrap(),
        j["unit"].as_str().unwrap(),
        &tmp,
    );
    let _ = std::fs::remove_file(&tmp);
    print!("{text}");
    match st {
        Ended::Code(0) => 0,
        Ended::Code(1) => 1,
        Ended::Code(c) => {
            println!("ended with code {c}");
            1
        }
        Ended::Signal(s) => {
            println!("killed by signal {s}");
            1
        }
        Ended::Hang => {
            println!("does not terminate within {HANG_S} s");
            1
        }
    }
}

enum Ended {
    Code(i32),
    Signal(i32),
    Hang,
}

fn run_one_child(prof: &str, id: &str, unit: &str, file: &Path) -> (Ended, String) {
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new(exe_for(prof))
        .args(["one", id, unit])
        .arg(file)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            let mut text = String::new();
            use std::io::Read;
            c.stdout.take().unwrap().read_to_string(&mut text).ok();
            return match (s.code(), s.signal()) {
                (Some(c), _) => (Ended::Code(c), text),
                (_, Some(s)) => (Ended::Signal(s), text),
                _ => (Ended::Code(2), text),
            };
        }
        if t0.elapsed() > Duration::from_secs(HANG_S) {
            let _ = c.kill();
            let _ = c.wait();
            return (Ended::Hang, String::new());
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

// -------------------------------------------------------------- supervisor

struct Found {
    profile: String,
    unit: String,
    choices: Vec<u32>,
    message: String,
}

fn known_findings(id: &str) -> Vec<(String, Vec<u32>, String)> {
    // open: property=ID unit=NAME choices=[..] what fails
    let mut v = vec![];
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(r) = l.strip_prefix(&format!("open: property={id} unit=")) else {
            continue;
        };
        let Some((unit, r)) = r.split_once(" choices=") else {
            continue;
        };
        let Some((ch, what)) = r.split_once("] ") else {
            continue;
        };
        if let Ok(c) = serde_json::from_str::<Vec<u32>>(&format!("{ch}]")) {
            v.push((unit.to_string(), c, what.to_string()));
        }
    }
    v
}

fn check(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let p = find(id);
    let t0 = Instant::now();
    let run = root().join(".run");
    std::fs::create_dir_all(&run).expect("run dir");
    std::fs::create_dir_all(root().join("evidence")).expect("evidence dir");
    let mut all_stats = vec![];
    let mut all_samples = vec![];
    let mut found: Vec<Found> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut capped = false;
    let mut known_seen: Vec<String> = vec![];
    let known = known_findings(id);
    for prof in p.profiles {
        let tag = format!("{id}-{prof}-{}", std::process::id());
        let outf = run.join(format!("{tag}.json"));
        let slotf = run.join(format!("{tag}.slots"));
        let _ = std::fs::remove_file(&outf);
        let _ = std::fs::remove_file(&slotf);
        let slots = map_slots(slotf.to_str().unwrap(), true);
        let mut child = Command::new(exe_for(prof))
            .args(["worker", id])
            .arg(&outf)
            .env("MC_SLOTS", &slotf)
            .stdout(Stdio::inherit())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("spawn worker");
        let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); MAX_SLOTS];
        let mut hung: Option<usize> = None;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break Some(s);
            }
            for (i, s) in seen.iter_mut().enumerate() {
                let q = unsafe { slots.add(i * SLOT_WORDS) };
                let (act, ctr) = unsafe { (q.read_volatile(), q.add(1).read_volatile()) };
                if act == 0 || ctr != s.0 {
                    *s = (ctr, Instant::now());
                } else if s.1.elapsed() > Duration::from_secs(HANG_S) {
                    hung = Some(i);
                }
            }
            if hung.is_some() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(15));
        };
        let clean = matches!(&status, Some(s) if s.code() == Some(0)) && outf.exists();
        if clean {
            let j: Value = serde_json::from_slice(&std::fs::read(&outf).unwrap()).expect("outcome");
            for s in j["stats"].as_array().unwrap() {
                let mut s = s.clone();
                s["profile"] = json!(prof);
                all_stats.push(s);
            }
            all_samples.extend(j["samples"].as_array().unwrap().iter().cloned());
            for e in j["engine_errors"].as_array().unwrap() {
                errors.push(format!("[{prof}] {}", e.as_str().unwrap()));
            }
            capped |= j["capped"].as_bool().unwrap();
            for v in j["violations"].as_array().unwrap() {
                found.push(Found {
                    profile: prof.to_string(),
                    unit: v["unit"].as_str().unwrap().to_string(),
                    choices: serde_json::from_value(v["choices"].clone()).unwrap(),
                    message: v["message"].as_str().unwrap().to_string(),
                });
            }
        } else {
            // crashed or hung: which of the running cases reproduces it?
            let what = match &status {
                None => "does not terminate".to_string(),
                Some(s) => match s.signal() {
                    Some(n) => format!("worker killed by signal {n}"),
                    None => format!("worker ended with {s}"),
                },
            };
            let units = (p.units)();
            let mut reproduced = false;
            for i in 0..MAX_SLOTS {
                let q = unsafe { slots.add(i * SLOT_WORDS) };
                if unsafe { q.read_volatile() } == 0 {
                    continue;
                }
                if hung.is_some() && hung != Some(i) {
                    continue;
                }
                let (u, n) = unsafe { (q.add(2).read_volatile() as usize, q.add(3).read_volatile() as usize) };
                let prefix: Vec<u32> =
                    unsafe { std::slice::from_raw_parts(q.add(4) as *const u32, n).to_vec() };
                let Some(un) = units.get(u) else { continue };
                let cf = run.join(format!("{tag}-{i}.choices"));
                std::fs::write(&cf, serde_json::to_vec(&prefix).unwrap()).unwrap();
                let (e, text) = run_one_child(prof, id, &u.to_string(), &cf);
                let _ = std::fs::remove_file(&cf);
                let msg = match e {
                    Ended::Signal(s) => Some(format!("the process is killed by signal {s} (abort or stack overflow)")),
                    Ended::Hang => Some(format!("does not terminate within {HANG_S} s")),
                    Ended::Code(1) => Some(text.trim().to_string()),
                    Ended::Code(0) => None,
                    Ended::Code(c) => Some(format!("the process ends with code {c}")),
                };
                if let Some(m) = msg {
                    reproduced = true;
                    found.push(Found {
                        profile: prof.to_string(),
                        unit: un.name.clone(),
                        choices: prefix,
                        message: m,
                    });
                    break;
                }
            }
            if !reproduced {
                errors.push(format!("[{prof}] {what}, not reproduced by any running case"));
            }
        }
        let _ = std::fs::remove_file(&outf);
        let _ = std::fs::remove_file(&slotf);
        if !found.is_empty() || !errors.is_empty() {
            break;
        }
    }
    found.retain(|f| {
        for (u, c, what) in &known {
            if *u == f.unit && *c == f.choices {
                known_seen.push(what.clone());
                return false;
            }
        }
        true
    });
    for k in &known_seen {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let sum = |k: &str| all_stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let (execs, evals, states, transitions) = (sum("executions"), sum("evaluations"), sum("states"), sum("transitions"));
    let exhausted = all_stats.iter().filter(|s| s["space_exhausted"] == json!(true)).count();
    let mut cov = json!({
        "bounds": all_stats,
        "exhausted_units": exhausted,
        "units": all_stats.len(),
        "time_capped": capped,
        "samples": all_samples.into_iter().take(40).collect::<Vec<_>>(),
        "explanation": p.rule,
        "exhaustive": exhausted == all_stats.len() && !capped,
    });
    if p.level == "fault_enumeration" {
        cov["evaluations"] = json!(evals.max(execs));
        cov["distinct_nontrivial"] = json!(states);
        cov["rule"] = json!(p.rule);
        cov["transitions"] = json!(transitions);
    } else {
        cov["states"] = json!(states);
        cov["transitions"] = json!(transitions);
        cov["traces_validated_against_impl"] = json!(execs);
        if evals > 0 {
            cov["impl_evaluations"] = json!(evals);
        }
    }
    let ev = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    std::fs::write(
        root().join("evidence").join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    if !found.is_empty() {
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).expect("replay dir");
        for (i, f) in found.iter().take(3).enumerate() {
            let path = dir.join(format!("{id}-{i}.json"));
            let j = json!({"property": id, "profile": f.profile, "unit": f.unit, "choices": f.choices, "message": f.message});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
            println!("{} [{}] choices={:?}: {}", f.unit, f.profile, f.choices, f.message);
            println!("VIOLATION property={id} replay={}", path.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ENGINE-ERROR {id}: {e}");
        }
        return 2;
    }
    println!(
        "OK {id}: {execs} executions ({evals} inner evaluations), {states} states, {transitions} transitions, {exhausted}/{} spaces exhausted, {:.1} s",
        all_stats.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}
