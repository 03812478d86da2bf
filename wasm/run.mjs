// Drives the WebAssembly builds of the harness: run.mjs check TIER | replay FILE
// Worker threads take jobs from a shared counter; a trap or a call that never ends is a violation.
import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import { readFileSync, writeFileSync, mkdirSync, rmSync, existsSync } from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const ID = 'C33';
const here = path.dirname(fileURLToPath(import.meta.url));
const root = process.env.VERIF_ROOT || path.dirname(here);
const BUILDS = ['simd', 'scalar'];
const CASE = 1024;
// half precision conversions the toolchain's WebAssembly runtime lacks; nothing that runs here uses them
const absent = () => { throw new Error('harness error: half precision on WebAssembly'); };
const noF16 = { __extendhfsf2: absent, __truncsfhf2: absent };


async function worker() {
  const { file, thorough, ctl, buf, only } = workerData;
  const head = new Int32Array(ctl), beat = new Int32Array(buf, 0, 2), cur = new Uint8Array(buf, 8);
  const mod = await WebAssembly.compile(readFileSync(file));
  let panic = '', bounds = [];
  const on = (k, p, n, text, st) => {
    if (k === 'count') return parentPort.postMessage({ count: p });
    if (k === 3) { // what is about to run: kept as raw bytes, this is the hot path
      const m = Math.min(n, CASE - 8);
      cur.set(new Uint8Array(st.m.exports.memory.buffer, p, m));
      beat[1] = m; Atomics.add(beat, 0, 1);
      return;
    }
    const s = text(p, n);
    if (k === 0) panic = s;
    if (k === 1) { const [key, c, d] = s.split('\t'); parentPort.postMessage({ viol: { key, case: c, detail: d } }); }
    if (k === 2) parentPort.postMessage({ sample: s });
    if (k === 4) bounds.push(s);
  };
  const make = async () => {
    const inst = await (async () => {
      const st = { m: null };
      const text = (p, n) => new TextDecoder().decode(new Uint8Array(st.m.exports.memory.buffer, p, n).slice());
      st.m = await WebAssembly.instantiate(mod, { host: { tell: (k, p, n) => on(k, p, n, text, st), count: (a, b, c, d) => on('count', [a, b, c, d >>> 0]) }, env: noF16 });
      return st.m.exports;
    })();
    return { ex: inst, n: inst.init(thorough ? 1 : 0) };
  };
  let w = await make();
  w.ex.bounds();
  parentPort.postMessage({ bounds, jobs: w.n });
  for (;;) {
    const j = only !== undefined ? (only.done ? w.n : (only.done = true, only.job)) : Atomics.add(head, 0, 1);
    if (j >= w.n) break;
    try {
      w.ex.run(j);
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
      const c = new TextDecoder().decode(cur.slice(0, beat[1]));
      const op = (c.match(/op=(\S+)/) || [])[1];
      parentPort.postMessage({ viol: { key: `op=${op} kind=${panic ? 'panic' : 'trap'}`, case: c, detail: panic || String(e.message) } });
      panic = '';
      w = await make();
    }
  }
  parentPort.postMessage({ end: true });
}

function explore(build, thorough, acc) {
  const file = path.join(root, 'target', 'wasm-' + build, 'wasm32-unknown-unknown/release/wasmc.wasm');
  const nw = Number(process.env.MC_WORKERS) || os.availableParallelism();
  const ctl = new SharedArrayBuffer(8);
  return new Promise((res, rej) => {
    let live = 0, dead = 0;
    const spawn = () => {
      const buf = new SharedArrayBuffer(CASE);
      const wk = new Worker(fileURLToPath(import.meta.url), { workerData: { file, thorough, ctl, buf } });
      const beat = new Int32Array(buf, 0, 2);
      let last = -1, still = 0, done = false;
      live++;
      const fin = () => { if (done) return; done = true; clearInterval(t); if (--live === 0) res(); };
      const t = setInterval(() => {
        const b = Atomics.load(beat, 0);
        still = b === last ? still + 1 : 0;
        last = b;
        if (still < 60) return;
        const c = new TextDecoder().decode(new Uint8Array(buf, 8, beat[1]).slice());
        const op = (c.match(/op=(\S+)/) || [])[1];
        acc.viol(build, { key: `op=${op} kind=hang`, case: c, detail: 'the call did not return within a minute' });
        wk.terminate();
        if (++dead < 20) spawn();
        fin();
      }, 1000);
      wk.on('message', m => {
        if (m.count) m.count.forEach((v, i) => (acc.n[i] += v));
        if (m.viol) acc.viol(build, m.viol);
        if (m.sample) acc.samples.add(`build=${build} ${m.sample}`);
        if (m.bounds) acc.bounds = m.bounds;
        if (m.end) fin();
      });
      wk.on('error', e => { clearInterval(t); rej(e); });
      wk.on('exit', fin);
    };
    for (let i = 0; i < nw; i++) spawn();
  });
}

async function check(tier) {
  const t0 = Date.now();
  const known = new Map();
  const kf = path.join(root, 'known_findings.txt');
  if (existsSync(kf)) for (const l of readFileSync(kf, 'utf8').split('\n')) {
    const m = l.match(/^known: property=(\S+) (.*?)(?: :: (.*))?$/);
    if (m && m[1] === ID) known.set(m[2].trim(), m[3] || '');
  }
  const found = new Map(), seen = new Map();
  const acc = {
    n: [0, 0, 0, 0], samples: new Set(), bounds: [],
    viol(build, v) {
      const key = `${v.key} build=${build}`;
      if (known.has(key)) seen.set(key, (seen.get(key) || 0) + 1);
      else if (!found.has(key)) found.set(key, { ...v, case: `build=${build} ${v.case}` });
    },
  };
  for (const b of BUILDS) await explore(b, tier === 'thorough', acc);
  for (const [k, n] of seen) console.log(`KNOWN-FINDING: property=${ID} ${k} (${known.get(k)}) seen ${n}x`);
  const dir = path.join(root, 'replays', ID);
  rmSync(dir, { recursive: true, force: true });
  let i = 0;
  for (const [key, v] of found) {
    if (i === 0) mkdirSync(dir, { recursive: true });
    const f = path.join(dir, `${i}.replay`);
    writeFileSync(f, `property=${ID}\ntier=${tier}\nkey=${key}\ncase=${v.case}\ndetail=${v.detail}\n`);
    if (i < 12) console.log(`${key}: ${v.detail}\n  ${v.case}\nVIOLATION property=${ID} replay=${f}`);
    i++;
  }
  if (i > 12) console.log(`... and ${i - 12} more, see ${dir}`);
  const wall = (Date.now() - t0) / 1000;
  const [states, execs, compared, samples] = acc.n;
  mkdirSync(path.join(root, 'evidence'), { recursive: true });
  writeFileSync(path.join(root, 'evidence', ID + '.json'), JSON.stringify({
    property: ID, tier, seed: Number(process.env.VERIF_SEED) || 1, level: 'model_checking',
    coverage: {
      states, transitions: execs, traces_validated_against_impl: compared, sample_values_compared: samples, exhaustive: true,
      explanation: 'The library compiled to wasm32-unknown-unknown with and without SIMD, executed by the WebAssembly engine of node. states: distinct (build, function, size, content, parameter) points; transitions: executions on them, one per buffer layout and per plane that ends where the linear memory ends; traces_validated_against_impl: executions whose complete result was compared with the exact model (the others were compared with those). The listed space was enumerated completely.',
      builds: BUILDS, bounds: acc.bounds, known_findings_seen: seen.size, samples: [...acc.samples].slice(0, 24),
    },
    assumptions: ['the WebAssembly engine of node executes the module as the specification says', 'reads outside a plane are seen only where they leave the linear memory or change the result'],
    wall_s: wall, violations: found.size,
  }, null, 1) + '\n');
  console.log(`${ID} ${tier}: ${states} states, ${execs} executions, ${compared} compared, ${found.size} violations, ${seen.size} known findings, ${wall.toFixed(1)} s`);
  process.exit(found.size ? 1 : 0);
}

// Re-run the job a replay file names.
async function replay(file) {
  const t = readFileSync(file, 'utf8');
  const get = k => (t.match(new RegExp(`^${k}=(.*)$`, 'm')) || [])[1] || '';
  const c = get('case'), build = (c.match(/build=(\S+)/) || [])[1];
  const mod = await WebAssembly.compile(readFileSync(path.join(root, 'target', 'wasm-' + build, 'wasm32-unknown-unknown/release/wasmc.wasm')));
  let ex, hits = 0, said = '', cur = '', panic = '';
  const text = (p, n) => new TextDecoder().decode(new Uint8Array(ex.memory.buffer, p, n).slice());
  const tell = (k, p, n) => {
    if (k === 0) panic = text(p, n);
    if (k === 1) { hits++; console.log(text(p, n)); }
    if (k === 3) cur = text(p, n);
    if (k === 5) said = text(p, n);
  };
  ex = (await WebAssembly.instantiate(mod, { host: { tell, count() {} }, env: noF16 })).exports;
  const n = ex.init(get('tier') === 'thorough' ? 1 : 0);
  const want = (k, d) => (c.match(new RegExp(`${k}=(\\S+)`)) || [])[1] || d;
  for (let j = 0; j < n; j++) {
    ex.describe(j);
    // the width of an address-space case is not the job's
    const dims = want('stage') === 'address-space';
    if (!said.startsWith(`stage=${want('stage')} op=${want('op')} ` + (dims ? '' : `w=${want('w')} `))) continue;
    try { ex.run(j); } catch (e) { hits++; console.log(`${cur}\n  ${panic || e.message}`); break; }
  }
  console.log(hits ? `VIOLATION property=${ID} replay=${file}` : 'not reproduced');
  process.exit(hits ? 1 : 0);
}

if (!isMainThread) await worker();
else if (process.argv[2] === 'replay') await replay(process.argv[3]);
else if (process.argv[2] === 'check') await check(process.argv[3] || 'quick');
else { console.error('usage: run.mjs check quick|thorough'); process.exit(2); }
