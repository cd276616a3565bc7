// run.mjs FILE.wasm PROPERTY TIER SEED EVIDENCE REPLAY_DIR SHARE [--replay FILE]
// Runs a share of the cases of a property with 32 bit pointers. Exits with 1 if one fails, having said so.
import { readFileSync, writeFileSync, mkdirSync } from 'node:fs';
import { spawn } from 'node:child_process';

const [file, prop, tier, seed, evidence, replayDir, share, flag, replay] = process.argv.slice(2);
const WORKERS = 8, BATCH = 250;
// How long a batch may take before we look at whether one of its cases doesn't end, and how long that one may take.
const STUCK = 150e3, LONG = 60e3;
const module = new WebAssembly.Module(readFileSync(file));

class Died extends Error {}
class Box {
  constructor() { this.w = new WebAssembly.Instance(module, {}).exports; }
  run(cmd) {
    const w = this.w, bytes = new TextEncoder().encode(cmd);
    try {
      // (Calls may move the memory.)
      const at = w.w_input(bytes.length) >>> 0;
      new Uint8Array(w.memory.buffer, at, bytes.length).set(bytes);
      const n = w.w_run() >>> 0, out = w.w_output() >>> 0;
      return JSON.parse(new TextDecoder().decode(new Uint8Array(w.memory.buffer, out, n)));
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
      // It's aborted, or run out of stack. What had the case chosen?
      const d = new Died(String(e));
      const from = w.w_log() >>> 0, len = w.w_log_len() >>> 0;
      const log = new BigUint64Array(w.memory.buffer.slice(from, from + 8 * len));
      d.choices = Array.from(log, String);
      throw d;
    }
  }
}
let box = null;
// Runs a case; only gives something back if it fails.
function attempt(part, choices) {
  box ??= new Box();
  try {
    const r = box.run(['one', prop, part, ...choices].join(' '));
    return r.result === 'fail' ? r : null;
  } catch (e) {
    if (!(e instanceof Died)) throw e;
    box = null;
    return { result: 'fail', msg: `aborted: ${e.message}`, choices: e.choices, sample: '' };
  }
}
function trim(c) { c = [...c]; while (c.length && c[c.length - 1] === '0') c.pop(); return c; }
function less(a, b) {
  if (a.length !== b.length) return a.length < b.length;
  for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return BigInt(a[i]) < BigInt(b[i]);
  return false;
}
function shrink(part, f) {
  const until = Date.now() + 30000;
  let best = { ...f, choices: trim(f.choices) };
  const tryIt = (c) => {
    if (Date.now() > until) return false;
    const r = attempt(part, c);
    if (!r) return false;
    r.choices = trim(r.choices);
    if (!less(r.choices, best.choices)) return false;
    best = r;
    return true;
  };
  for (let before = null; before !== best && Date.now() < until;) {
    before = best;
    for (let size = Math.min(512, Math.max(1, best.choices.length >> 1)); size >= 1; size = size >> 1) {
      for (let i = best.choices.length - size; i >= 0; i -= size) {
        if (i + size <= best.choices.length) tryIt([...best.choices.slice(0, i), ...best.choices.slice(i + size)]);
      }
    }
    for (const size of [16, 4, 1]) {
      for (let i = 0; i < best.choices.length; i += size) {
        if (best.choices.slice(i, i + size).some((c) => c !== '0')) tryIt(best.choices.map((c, j) => (j >= i && j < i + size ? '0' : c)));
      }
    }
    for (let i = 0; i < best.choices.length; i++) {
      let lo = 0n, hi = BigInt(best.choices[i]);
      while (lo < hi) {
        const mid = (lo + hi) / 2n;
        if (tryIt(best.choices.map((c, j) => (j === i ? String(mid) : c)))) {
          if (i >= best.choices.length) break;
          const now = BigInt(best.choices[i]);
          hi = now < mid ? now : mid;
        } else lo = mid + 1n;
      }
    }
  }
  return best;
}

// Runs one case in a process of its own; says whether it takes too long.
function hangs(drawn) {
  return new Promise((done) => {
    const kid = spawn(process.execPath, ['--stack-size=900000', '--max-old-space-size=3000', ...process.argv.slice(1)], { env: { ...process.env, W32_CASE: drawn }, stdio: ['ignore', 'ignore', 'inherit'] });
    let late = false;
    const t = setTimeout(() => { late = true; kid.kill('SIGKILL'); }, LONG);
    kid.on('close', () => { clearTimeout(t); done(late); });
  });
}

if (process.env.W32_CASE !== undefined) {
  const [p, s, thread, n] = process.env.W32_CASE.split(' ');
  try { new Box().run(`cases ${prop} ${p} ${s} ${thread} ${n} 1`); } catch (e) { if (!(e instanceof Died)) throw e; }
} else if (process.env.W32_WORKER !== undefined) {
  // Goes through its share of batches, printing a line for each.
  const me = Number(process.env.W32_WORKER);
  const parts = new Box().run(`parts ${prop}`);
  outer: for (const [p, part] of parts.entries()) {
    const n = Math.ceil((part[tier === 'thorough' ? 'thorough' : 'quick'] * Number(share)) / WORKERS);
    for (let from = 0; from < n; from += BATCH) {
      box ??= new Box();
      let r;
      console.log(JSON.stringify({ at: [p, from, Math.min(BATCH, n - from)], name: part.name }));
      try {
        r = box.run(`cases ${prop} ${p} ${seed} ${me + 100} ${from} ${Math.min(BATCH, n - from)}`);
      } catch (e) {
        if (!(e instanceof Died)) throw e;
        box = null;
        r = { result: 'fail', msg: `aborted: ${e.message}`, choices: e.choices, sample: '' };
      }
      if (r.result === 'fail') {
        // Whether it happens again isn't in doubt for these, but look.
        console.log(JSON.stringify({ at: null }));
        const again = attempt(p, r.choices);
        const best = again ? shrink(p, again) : r;
        console.log(JSON.stringify({ fail: { part: part.name, ...best } }));
        break outer;
      }
      console.log(JSON.stringify({ part: part.name, ...r }));
    }
  }
} else if (flag === '--replay') {
  const text = readFileSync(replay, 'utf8').split('\n');
  const name = text.find((l) => l.startsWith('part ')).slice(5);
  const choices = text.find((l) => l.startsWith('choices')).split(' ').slice(1).filter(Boolean);
  const drawn = text.find((l) => l.startsWith('drawn '))?.slice(6);
  const part = new Box().run(`parts ${prop}`).findIndex((p) => p.name === name);
  const r = drawn ? ((await hangs(`${part} ${drawn}`)) ? { msg: "doesn't end", sample: drawn } : null) : attempt(part, choices);
  console.log(r ? `${r.msg}\ncase: ${r.sample}\nVIOLATION property=${prop} replay=${replay}` : 'passes');
  process.exit(r ? 1 : 0);
} else {
  const start = Date.now();
  const total = { evals: 0, nontrivial: 0, discards: 0 }, keys = new Set(), samples = [], fails = [], by = {};
  const kids = [];
  let stuck = null;
  let broken = false;
  const watch = setInterval(() => {
    if (stuck || fails.length) return;
    stuck = kids.find((k) => k.exitCode === null && k.seen.at && Date.now() - k.seen.since > STUCK)?.seen ?? null;
    if (stuck) for (const k of kids) k.kill('SIGKILL');
  }, 1000);
  await Promise.all(Array.from({ length: WORKERS }, (_, i) => new Promise((done) => {
    const kid = spawn(process.execPath, ['--stack-size=900000', '--max-old-space-size=3000', ...process.argv.slice(1)], { env: { ...process.env, W32_WORKER: String(i) }, stdio: ['ignore', 'pipe', 'inherit'] });
    kids.push(kid);
    kid.seen = { since: Date.now(), me: i };
    let rest = '', stopped = false;
    kid.stdout.on('data', (d) => {
      const lines = (rest + d).split('\n');
      rest = lines.pop();
      for (const l of lines) {
        const r = JSON.parse(l);
        kid.seen = { since: Date.now(), me: i, ...r };
        if (r.fail) { fails.push(r.fail); continue; }
        if ('at' in r) continue;
        for (const k of ['evals', 'nontrivial', 'discards']) total[k] += r[k];
        for (const k of r.keys) if (keys.size < 3e6) keys.add(k);
        by[r.part] = (by[r.part] ?? 0) + r.evals;
        if (samples.length < 6) samples.push(...r.samples.map((s) => `${r.part}: ${s}`));
      }
    });
    kid.on('close', (code, sig) => {
      if (fails.length && !stopped) for (const k of kids) { stopped = true; k.kill(); }
      else if (code !== 0 && !fails.length && !stuck) { console.log(`a worker ended with ${code ?? sig}`); broken = true; }
      done();
    });
  })));
  clearInterval(watch);
  if (stuck) {
    // Which of the cases is it?
    const [p, from, n] = stuck.at;
    let next = from, found = null;
    await Promise.all(Array.from({ length: WORKERS }, async () => {
      while (next < from + n && found === null) {
        const c = next++;
        if (await hangs(`${p} ${seed} ${stuck.me + 100} ${c}`)) found = c;
      }
    }));
    if (found === null) { console.log(`these take very long: ${JSON.stringify(stuck)}`); broken = true; }
    else {
      const drawn = `${seed} ${stuck.me + 100} ${found}`;
      fails.push({ part: stuck.name, choices: [], drawn, msg: "doesn't end", sample: `case ${found} of thread ${stuck.me + 100} with seed ${seed}` });
    }
  }
  const wall = (Date.now() - start) / 1000;
  let exit = 0;
  if (fails.length) {
    fails.sort((a, b) => (less(a.choices, b.choices) ? -1 : 1));
    const f = fails[0], path = `${replayDir}/${prop}.replay`;
    mkdirSync(replayDir, { recursive: true });
    writeFileSync(path, `property ${prop}\ntarget wasm32\npart ${f.part}\nseed ${seed}\nchoices ${f.choices.join(' ')}\n${f.drawn ? `drawn ${f.drawn}\n` : ''}---\n${f.msg}\n--- case (with 32 bit pointers)\n${f.sample}\n`);
    console.log(f.msg);
    console.log(`case (with 32 bit pointers): ${f.sample}`);
    console.log(`VIOLATION property=${prop} replay=${path}`);
    exit = 1;
  } else if (broken) exit = 2;
  try {
    const ev = JSON.parse(readFileSync(evidence, 'utf8'));
    ev.coverage.with_32_bit_pointers = { ...total, distinct_nontrivial: keys.size, by_part: by, samples: samples.slice(0, 3), wall_s: wall };
    ev.coverage.evaluations += total.evals;
    if (exit === 1) ev.violations = 1;
    writeFileSync(evidence, JSON.stringify(ev, null, 1) + '\n');
  } catch (e) { console.log(`cannot add to the evidence: ${e}`); exit ||= 2; }
  console.log(`${prop} with 32 bit pointers: ${total.evals} cases, ${keys.size} distinct non-trivial, ${total.discards} discarded, ${wall}s`);
  process.exit(exit);
}
