// Drives the model checker on wasm32 (../harness/src/wasm.rs): hands out the parts of each space to
// workers, raises the deviation bounds, judges, and writes the evidence.
//   node run.mjs check WASM ROOT     node run.mjs replay WASM ROOT FILE     node run.mjs list WASM ROOT
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const SLOT = 1 << 14; // words: [0] cases so far, [1] choices of the current one, [2..] these
const HANG_MS = 120_000;

function instance(module, each, give) {
  const inst = new WebAssembly.Instance(module, {
    env: {
      each: (p, n) => each(new Uint32Array(inst.exports.memory.buffer, p, n)),
      give: (p, n) => give(JSON.parse(text(p, n))),
    },
  });
  const x = inst.exports;
  const text = (p, n) => new TextDecoder().decode(new Uint8Array(x.memory.buffer, p >>> 0, n >>> 0));
  const put = (o) => {
    const b = new TextEncoder().encode(JSON.stringify(o));
    const p = x.input(b.length);
    new Uint8Array(x.memory.buffer, p >>> 0, b.length).set(b);
  };
  const out = (n) => JSON.parse(text(x.output(), n));
  return {
    start: (thorough) => out(x.start(thorough ? 1 : 0)),
    explore(p, u, bound, tasks) {
      put(tasks);
      const t = Date.now();
      const r = out(x.explore(p, u, bound));
      r.ms = Date.now() - t;
      r.hashes = new BigUint64Array(x.memory.buffer.slice(r.states_at >>> 0, (r.states_at >>> 0) + 8 * r.states));
      return r;
    },
    one(p, u, choices) {
      put(choices);
      return out(x.one(p, u));
    },
  };
}

if (!isMainThread) {
  const { module, thorough, slot, hungry } = workerData;
  const s = new Int32Array(slot), h = new Int32Array(hungry);
  let job = null;
  const fresh = () => {
    const i = instance(
      module,
      (c) => {
        s.set(c.subarray(0, SLOT - 2), 2);
        s[1] = Math.min(c.length, SLOT - 2);
        Atomics.add(s, 0, 1);
        const v = Atomics.load(h, 0);
        return v > 0 && Atomics.compareExchange(h, 0, v, v - 1) === v ? 1 : 0;
      },
      (tasks) => parentPort.postMessage({ kind: 'give', job, tasks }),
    );
    i.start(thorough);
    return i;
  };
  let inst = fresh();
  parentPort.on('message', (m) => {
    job = m.job;
    try {
      if (m.kind === 'one') {
        parentPort.postMessage({ kind: 'one', message: inst.one(job.p, job.u, m.choices) });
      } else {
        s[1] = 0;
        const r = inst.explore(job.p, job.u, job.bound, m.tasks);
        parentPort.postMessage({ kind: 'done', job, r }, [r.hashes.buffer]);
      }
    } catch (e) {
      // the code aborted, overflowed its stack, or ran out of memory
      const choices = Array.from(s.subarray(2, 2 + s[1]), (v) => v >>> 0);
      parentPort.postMessage({ kind: 'trap', job, choices, message: String(e) });
      inst = fresh();
    }
  });
  parentPort.postMessage({ kind: 'ready' });
}

const thorough = process.env.VERIF_TIER === 'thorough';
const ID = 'C34';
// slow on 32-bit words (elliptic curves, millions of short cases): in the thorough tier only
const SLOW = ['C24 sequences', 'C33 conversions', 'C33 changed', 'C15 long', 'C19 positions', 'C19 bytes', 'C05 long'];

class Pool {
  constructor(module, n) {
    this.module = module;
    this.hungry = new SharedArrayBuffer(4);
    this.workers = [];
    for (let i = 0; i < n; i++) this.workers.push(this.make());
  }
  make() {
    const slot = new SharedArrayBuffer(SLOT * 4);
    const w = { slot: new Int32Array(slot), busy: false, seen: -1, since: Date.now() };
    w.thread = new Worker(fileURLToPath(import.meta.url), {
      workerData: { module: this.module, thorough, slot, hungry: this.hungry },
      resourceLimits: { stackSizeMb: 64, maxOldGenerationSizeMb: 2048 },
    });
    w.ready = new Promise((ok) => w.thread.once('message', ok));
    w.thread.on('error', (e) => { console.error('worker failed', e); process.exit(2); });
    return w;
  }
  // runs one level; jobs: [{p, u, bound}]
  async level(jobs, onDone, onTrap) {
    await Promise.all(this.workers.map((w) => w.ready));
    const queue = jobs.map((job) => ({ job, tasks: [[[], 0, true]] })).reverse();
    const h = new Int32Array(this.hungry);
    await new Promise((finish) => {
      let over = false;
      const pump = () => {
        if (over) return;
        for (const w of this.workers) {
          if (w.busy) continue;
          const t = queue.pop();
          if (!t) break;
          w.busy = true;
          w.job = t.job;
          w.seen = -1;
          w.thread.postMessage({ kind: 'explore', ...t });
        }
        const idle = this.workers.filter((w) => !w.busy).length;
        Atomics.store(h, 0, idle);
        if (idle === this.workers.length && queue.length === 0) {
          over = true;
          clearInterval(timer);
          finish();
        }
      };
      const listen = (w) => {
        w.thread.removeAllListeners('message');
        w.thread.on('message', (m) => {
          if (m.kind === 'give') {
            // in two parts, so that it spreads
            const k = m.tasks.length >> 1;
            for (const tasks of [m.tasks.slice(0, k), m.tasks.slice(k)]) if (tasks.length) queue.push({ job: m.job, tasks });
          } else if (m.kind === 'done') {
            w.busy = false;
            if (onDone(m.job, m.r)) queue.length = 0;
          } else if (m.kind === 'trap') {
            w.busy = false;
            queue.length = 0;
            onTrap(m.job, m.choices, m.message);
          }
          pump();
        });
      };
      const timer = setInterval(() => {
        for (const w of this.workers) {
          const n = w.slot[0];
          if (!w.busy || n !== w.seen) {
            w.seen = n;
            w.since = Date.now();
          } else if (Date.now() - w.since > HANG_MS) {
            w.thread.terminate();
            const choices = Array.from(w.slot.subarray(2, 2 + w.slot[1]), (v) => v >>> 0);
            onTrap(w.job, choices, `does not terminate within ${HANG_MS / 1000} s`);
            queue.length = 0;
            this.workers[this.workers.indexOf(w)] = Object.assign(this.make(), { busy: false });
            listen(this.workers[this.workers.length - 1]);
          }
        }
        pump();
      }, 200);
      this.workers.forEach(listen);
      pump();
    });
  }
  // executes one case in a worker of its own
  async one(job, choices) {
    const w = this.make();
    await w.ready;
    const r = await new Promise((ok) => {
      const t = setTimeout(() => ok(`does not terminate within ${HANG_MS / 1000} s`), HANG_MS);
      w.thread.on('message', (m) => { clearTimeout(t); ok(m.kind === 'trap' ? `the module aborts: ${m.message}` : m.message); });
      w.thread.postMessage({ kind: 'one', job, choices });
    });
    await w.thread.terminate();
    return r;
  }
  close() {
    for (const w of this.workers) w.thread.terminate();
  }
}

function known(root) {
  const v = [];
  for (const l of fs.readFileSync(path.join(root, 'known_findings.txt'), 'utf8').split('\n')) {
    const m = l.match(/^open: property=C34 unit=(.*?) choices=(\[[^\]]*\]) (.*)$/);
    if (m) v.push({ unit: m[1], choices: m[2].replace(/ /g, ''), what: m[3] });
  }
  return v;
}

async function check(module, root) {
  const t0 = Date.now();
  const all = instance(module, () => 0, () => {}).start(thorough).filter((u) => !u.nondet && (thorough || !SLOW.some((n) => `${u.prop} ${u.name}`.startsWith(n))));
  for (const u of all) u.name = `${u.prop} ${u.name}`;
  const pool = new Pool(module, Math.max(1, Math.min(8, os.availableParallelism())));
  const share = thorough ? 4 : 16; // of the budget of the 64-bit build, in the same tier
  const deadline = thorough ? 2400_000 : 200_000;
  const stats = new Map(), samples = [], found = [], errors = [];
  let capped = false;
  let active = all.map((u) => ({ ...u, bound: 0 }));
  while (active.length) {
    const accs = new Map();
    const t1 = Date.now();
    await pool.level(
      active.map((u) => ({ p: u.p, u: u.u, bound: u.bound, name: u.name })),
      (job, r) => {
        const a = accs.get(job.name) ?? { executions: 0, evaluations: 0, transitions: 0, longest: 0, ms: 0, next_cost: 0, last_execs: 0, last_roots: 0, hashes: [], ms: 0 };
        for (const k of ['ms', 'executions', 'evaluations', 'transitions', 'next_cost', 'last_execs', 'last_roots']) a[k] += r[k];
        a.longest = Math.max(a.longest, r.longest);
        a.hashes.push(r.hashes);
        accs.set(job.name, a);
        for (const [k, v] of r.samples) if (samples.length < 40 && !samples.some((s) => s.case.startsWith(job.name))) samples.push({ case: `${job.name}: ${k}`, value: v });
        for (const v of r.violations) found.push({ ...job, unit: job.name, ...v });
        for (const e of r.errors) errors.push(`${job.name}: ${e}`);
        return r.violations.length + r.errors.length > 0;
      },
      (job, choices, message) => found.push({ ...job, unit: job.name, choices, message, trap: true }),
    );
    const next = [];
    for (const u of active) {
      const a = accs.get(u.name);
      if (!a) continue;
      let n = 0;
      for (const h of a.hashes) n += h.length;
      const hs = new BigUint64Array(n);
      n = 0;
      for (const h of a.hashes) hs.set(h, n), (n += h.length);
      hs.sort();
      let states = 0;
      for (let i = 0; i < hs.length; i++) if (i === 0 || hs[i] !== hs[i - 1]) states++;
      const est = Math.floor((a.next_cost * a.last_execs) / Math.max(1, a.last_roots));
      stats.set(u.name, {
        unit: u.name, executions: a.executions, evaluations: a.evaluations, states, transitions: a.transitions,
        deviation_bound: u.bound, space_exhausted: a.next_cost === 0, next_level_estimate: est, longest_choice_sequence: a.longest, profile: 'wasm32',
      });
      if (a.next_cost > 0 && u.bound < u.max_dev && est <= u.budget / share) next.push({ ...u, bound: u.bound + 1 });
    }
    if (process.env.MC_TIME) console.error(`${(Date.now() - t1) / 1000} s for ${active.length} spaces: ${active.map((u) => [accs.get(u.name)?.ms ?? 0, `${u.name} D=${u.bound}`]).sort((a, b) => b[0] - a[0]).slice(0, 60).map((x) => `${x[1]} ${x[0]} ms`).join(', ')}`);
    if (found.length || errors.length) break;
    if (Date.now() - t0 > deadline) {
      capped = next.length > 0;
      break;
    }
    active = next;
  }
  for (const f of found.filter((f) => f.trap)) {
    const again = await pool.one(f, f.choices);
    if (again === null) errors.push(`${f.unit}: ${f.message}, not reproduced by ${JSON.stringify(f.choices)}`);
    else f.message = again;
    f.gone = again === null;
  }
  pool.close();
  let real = found.filter((f) => !f.gone);
  real.sort((a, b) => a.choices.filter((c) => c).length - b.choices.filter((c) => c).length || a.choices.length - b.choices.length);
  for (const k of known(root)) {
    const n = real.length;
    real = real.filter((f) => !(f.unit === k.unit && JSON.stringify(f.choices) === k.choices));
    if (real.length < n) console.log(`KNOWN-FINDING: property=${ID} ${k.what}`);
  }
  const list = [...stats.values()];
  const sum = (k) => list.reduce((a, s) => a + s[k], 0);
  const exhausted = list.filter((s) => s.space_exhausted).length;
  const evidence = {
    property: ID, tier: thorough ? 'thorough' : 'quick', seed: Number(process.env.VERIF_SEED ?? 1), level: 'model_checking',
    coverage: {
      bounds: list, exhausted_units: exhausted, units: list.length, time_capped: capped, samples,
      explanation: 'The spaces of the other properties, explored on the code compiled for wasm32 (32-bit words, as the project\'s own continuous integration builds it) and judged there by the same reference implementations: every choice sequence with at most deviation_bound deviations is executed.',
      exhaustive: exhausted === list.length && !capped,
      states: sum('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('executions'), impl_evaluations: sum('evaluations'),
    },
    assumptions: ['node executes WebAssembly according to its specification', 'rustc and LLVM translate the library to wasm32 as they would in a release', 'one thread: rayon runs its tasks in turn on this target'],
    wall_s: (Date.now() - t0) / 1000, violations: real.length,
  };
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(root, 'evidence', `${ID}.json`), JSON.stringify(evidence, null, 2));
  if (real.length) {
    fs.mkdirSync(path.join(root, 'replays'), { recursive: true });
    real.slice(0, 3).forEach((f, i) => {
      const file = path.join(root, 'replays', `${ID}-${i}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: ID, profile: 'wasm32', unit: f.unit, choices: f.choices, message: f.message }, null, 2));
      console.log(`${f.unit} [wasm32] choices=${JSON.stringify(f.choices)}: ${f.message}`);
      console.log(`VIOLATION property=${ID} replay=${file}`);
    });
    return 1;
  }
  if (errors.length) {
    for (const e of errors) console.error(`ENGINE-ERROR ${ID}: ${e}`);
    return 2;
  }
  console.log(`OK ${ID}: ${sum('executions')} executions (${sum('evaluations')} inner evaluations), ${sum('states')} states, ${sum('transitions')} transitions, ${exhausted}/${list.length} spaces exhausted, ${((Date.now() - t0) / 1000).toFixed(1)} s`);
  return 0;
}

async function replay(module, root, file) {
  const j = JSON.parse(fs.readFileSync(file, 'utf8'));
  const u = instance(module, () => 0, () => {}).start(thorough).find((u) => `${u.prop} ${u.name}` === j.unit);
  if (!u) {
    console.error(`unknown unit ${j.unit}`);
    return 2;
  }
  const pool = new Pool(module, 0);
  const m = await pool.one(u, j.choices);
  console.log(`${j.unit}: ${m ?? 'the property holds on this case'}`);
  return m === null ? 0 : 1;
}

if (isMainThread) {
  const [cmd, wasm, root, file] = process.argv.slice(2);
  const module = new WebAssembly.Module(fs.readFileSync(wasm));
  if (cmd === 'list') for (const u of instance(module, () => 0, () => {}).start(thorough)) console.log(u.prop, u.name, u.max_dev, u.budget);
  else process.exit(cmd === 'replay' ? await replay(module, root, file) : await check(module, root));
}
