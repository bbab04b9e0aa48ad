// Runs simulated worlds in the WebAssembly machine.  Every run gets a fresh instance of the module;
// what the module leaves in its memory is read back even after a trap.
import fs from 'node:fs';
import { watch } from './watch.mjs';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';

const HANG_MS = 90_000;

function host(wasmPath) {
  const mod = new WebAssembly.Module(watch(fs.readFileSync(wasmPath)));
  const dec = new TextDecoder(), enc = new TextEncoder();
  const str = (x, n) => dec.decode(new Uint8Array(x.memory.buffer, x.hw_buf(0), n));
  const cov = new Uint32Array(16384);
  const st = { runs: 0, processes: 0, steps: 0, skipped: 0, checks: 0, bytes: 0, obs: 0, sim_ns: 0,
    nontrivial: 0, inconclusive: 0, allocs: 0, watched: 0, faults: {}, sigs: new Set() };

  // load: function that puts a plan into the fresh instance
  function run(load, salt, only, first) {
    const x = new WebAssembly.Instance(mod, {}).exports;
    x.hw_init();
    let trap = null;
    if (load(x) !== 0) return { harness: 'cannot load the plan: ' + JSON.parse(str(x, x.hw_report())).msg };
    try { x.hw_run(BigInt(salt), only); } catch (e) { trap = String(e && e.message || e); }
    const r = JSON.parse(str(x, x.hw_report()));
    st.processes++;
    st.steps += r.count[0]; st.skipped += r.count[1]; st.bytes += r.count[2]; st.checks += r.count[3];
    st.allocs += r.count[4]; st.obs += r.nobs; st.watched += r.watched; st.inconclusive += r.inconclusive;
    const c = new Uint32Array(x.memory.buffer, x.hw_cov(), 16384);
    for (let i = 0; i < 16384; i++) cov[i] |= c[i];
    if (first) {
      st.runs++; st.nontrivial += r.nontrivial; st.sim_ns += r.sim_ns; if (r.nontrivial) st.sigs.add(r.sig);
      for (const k in r.faults) st.faults[k] = (st.faults[k] || 0) + r.faults[k];
    }
    const at = `step ${r.step} in ${r.what}`;
    const o = { digest: r.digest, xdigest: r.xdigest, sess: r.sess, sessions: r.sessions, prop: r.prop };
    o.obs = () => str(x, x.hw_obs());
    o.plan = () => str(x, x.hw_print());
    if (r.viol) { const i = r.msg.indexOf('|'); o.viol = [r.msg.slice(0, i), r.msg.slice(i + 1)]; }
    else if (r.panic) o.viol = ['panic', `${at}: ${r.msg}`];
    else if (r.harness) o.harness = r.msg;
    else if (trap !== null) { if (r.in_lib) o.viol = ['fault', `${at}: ${trap}`]; else o.harness = `${at}: ${trap}`; }
    else if (!r.done) o.harness = 'run ended early at ' + at;
    return o;
  }

  function diff(a, b) {
    const f = (o) => o.obs().split('\n');
    const p = f(a), q = f(b);
    for (let i = 0; i < Math.min(p.length, q.length); i++) if (p[i] !== q[i]) return 'first difference: ' + p[i].slice(0, 60);
    return 'logs differ';
  }

  function evaluate(load) {
    const base = run(load, 0, -1, true);
    if (base.viol || base.harness) return base;
    if (base.prop === 'C09' || base.prop === 'C12') {
      for (let s = 1; s < (base.prop === 'C09' ? 4 : 2); s++) {
        const o = run(load, s, -1, false);
        if (o.viol || o.harness) return o;
        if (o.digest !== base.digest) {
          base.viol = base.prop === 'C09'
            ? ['address-independence', `step 0: results differ when inputs and hashers are placed elsewhere (placement ${s}): ${diff(base, o)}`]
            : ['across-processes', `step 0: two instances disagree: ${diff(base, o)}`];
          return base;
        }
      }
    } else if (base.prop === 'C15') {
      for (const s of base.sessions) {
        const o = run(load, 0, s, false);
        if (o.viol || o.harness) return o;
        st.checks++;
        if (o.sess[s % 64] !== base.sess[s % 64]) {
          base.viol = ['isolation', `step 0: session ${s} obtains other results when it runs alone: ${diff(base, o)}`];
          return base;
        }
      }
    }
    return base;
  }

  const genLoad = (prop, seed, a) => (x) => x.hw_gen(Number(prop.slice(1)), BigInt(seed),
    BigInt(a('--max', '70000')), BigInt(a('--huge', '0')), Number(a('--hugepm', '40')), Number(a('--steps', '600')));
  const textLoad = (text) => (x) => {
    const b = enc.encode(text);
    const p = x.hw_buf(b.length);
    new Uint8Array(x.memory.buffer, p, b.length).set(b);
    return x.hw_parse(b.length);
  };
  const stats = () => {
    const o = { ...st, sigs: [...st.sigs].map((s) => s.slice(0, -4) || '0').join(','), tf_runs: 0, tf_instrs: 0, tf_switches: 0, tf_interleavings: 0 };
    const b = new BigUint64Array(cov.buffer);
    o.cov = Array.from(b, (v) => v.toString(16)).join(',');
    return 'stats ' + JSON.stringify(o);
  };
  const info = () => { const x = new WebAssembly.Instance(mod, {}).exports; x.hw_init(); return str(x, x.hw_info()); };
  const gen = (load) => { const x = new WebAssembly.Instance(mod, {}).exports; x.hw_init(); load(x); return str(x, x.hw_print()); };
  return { evaluate, genLoad, textLoad, stats, info, gen };
}

const argv = process.argv.slice(2);
const arg = (n, d) => { const i = argv.indexOf(n); return i < 0 ? d : argv[i + 1]; };

if (isMainThread) {
  // the worker works, this thread watches that it makes progress
  const w = new Worker(new URL(import.meta.url), { argv, workerData: 1 });
  let last = Date.now(), cur = '';
  let out = [];
  const flush = (cb) => { const s = out.join(''); out = []; if (s) process.stdout.write(s, cb); else if (cb) cb(); };
  w.on('message', (m) => {
    last = Date.now();
    if (m.at !== undefined) cur = m.at;
    if (m.line !== undefined) { out.push(m.line + '\n'); if (out.length > 500) flush(); }
    if (m.exit !== undefined) flush(() => process.exit(m.exit));
  });
  w.on('error', (e) => { out.push('HARNESS ' + String(e && e.stack || e).replace(/\n/g, ' ') + '\n'); flush(() => process.exit(2)); });
  setInterval(() => {
    if (Date.now() - last > HANG_MS) {
      const m = 'no-progress';
      out.push(cur.startsWith('seed=') ? `VIOL ${cur} oracle=${m} msg=step 0: a run made no progress\n` : `verdict ${cur} viol ${m} 0 step 0: a run made no progress\n`);
      flush(() => process.exit(0));
    }
  }, 1000);
} else {
  const say = (line) => parentPort.postMessage({ line });
  const h = host(arg('--wasm'));
  const cmd = argv[0];
  if (cmd === 'info') say(h.info());
  else if (cmd === 'gen') say(h.gen(h.genLoad(arg('--prop'), arg('--seed', '1'), arg)).trimEnd());
  else if (cmd === 'batch') {
    const from = BigInt(arg('--from', '0')), n = BigInt(arg('--n', '100')), t0 = Date.now(), secs = Number(arg('--secs', '100000'));
    for (let s = from; s < from + n; s++) {
      if ((Date.now() - t0) / 1000 > secs) break;
      parentPort.postMessage({ at: 'seed=' + s });
      const o = h.evaluate(h.genLoad(arg('--prop'), s, arg));
      if (argv.includes('--digests')) say(`digest ${s} ${o.digest} ${o.xdigest}`);
      if (o.harness) { say(`HARNESS seed=${s} ${o.harness}`); break; }
      if (o.viol) { say(`VIOL seed=${s} oracle=${o.viol[0]} msg=${o.viol[1]}`); break; }
    }
    say(h.stats());
  } else if (cmd === 'exec') {
    const plans = fs.readFileSync(arg('--file'), 'utf8').split(/(?<=^end\n)/m).filter((p) => /^hwsim 1$/m.test(p));
    plans.forEach((p, i) => {
      parentPort.postMessage({ at: String(i) });
      const o = h.evaluate(h.textLoad(p));
      if (argv.includes('-v') && o.obs) say(o.obs().trimEnd());
      if (o.viol) say(`verdict ${i} viol ${o.viol[0]} ${o.digest} ${o.viol[1]}`);
      else if (o.harness) say(`verdict ${i} harness ${o.harness}`);
      else say(`verdict ${i} ok ${o.digest} ${o.xdigest}`);
    });
  }
  parentPort.postMessage({ exit: 0 });
}
