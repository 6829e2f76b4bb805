// Executes batches of wasm calls. One JSON request per line: {wasm: hex, calls: [[fn, [[type, text]...], limit]...]}
// Reply: {err: text} or {r: [[trace...], end]...}
const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
const buf = new DataView(new ArrayBuffer(8));
const bits = (x) => { buf.setFloat64(0, x); return buf.getBigUint64(0).toString(16).padStart(16, '0'); };
let trace = [], limit = 8000, out = [], inp = null;
class Cut extends Error {}
const rec = (s) => { trace.push(s); if (trace.length >= limit) throw new Cut(); };
const env = {
  __in_i32: () => 0,
  __obs_i32: (x) => rec(`i32:[${x >>> 0}:i32]`),
  __obs_i1: (x) => rec(`i1:[${x >>> 0}:i1]`),
  __obs_i64: (x) => rec(`i64:[${BigInt.asUintN(64, x)}:i64]`),
  __obs_f64: (x) => rec(`f64:[f64:${Number.isNaN(x) ? 'nan' : bits(x)}]`),
  __obs_f32: (x) => { buf.setFloat32(0, x); rec(`f32:[f32:${Number.isNaN(x) ? 'nan' : buf.getUint32(0).toString(16).padStart(8, '0')}]`); },
  __obs_nil: () => rec('nil:[nil]'),
};
const show = (v) => v === undefined ? 'u' : typeof v === 'bigint' ? 'b' + BigInt.asUintN(64, v) : typeof v === 'number' ? 'n' + bits(v) : 'o';
let mem = null, wmode = null;
const wasi = {
  // wmode: null = everything at once, otherwise a list of per-call results (bytes accepted, or negative errno)
  fd_write: (fd, iovs, n, nwritten) => {
    const m = new DataView(mem.buffer);
    let step = wmode && wmode.length ? wmode.shift() : 1e9, total = 0;
    if (step < 0) { rec(`e:${-step}`); return -step; }
    const from = out.length;
    for (let i = 0; i < n; i++) {
      const p = m.getUint32(iovs + 8 * i, true), l = m.getUint32(iovs + 8 * i + 4, true);
      const k = Math.min(l, step - total);
      for (let j = 0; j < k; j++) out.push(m.getUint8(p + j));
      total += k;
    }
    rec(`w:${fd}:${out.length - from}`);
    m.setUint32(nwritten, total, true);
    return 0;
  },
};
rl.on('line', (line) => {
  let res;
  try {
    const q = JSON.parse(line);
    const mod = new WebAssembly.Module(Buffer.from(q.wasm, 'hex'));
    const r = [];
    let inst = null;
    for (const [f, args, lim, fresh, wm] of q.calls) {
      if (!inst || fresh) { inst = new WebAssembly.Instance(mod, { env, wasi_snapshot_preview1: wasi }); mem = inst.exports.memory; }
      trace = []; limit = lim; out = []; wmode = wm || null;
      let end;
      try {
        const a = args.map(([t, x]) => t === 'i64' ? BigInt.asIntN(64, BigInt(x)) : t === 'f' ? (buf.setBigUint64(0, BigInt('0x' + x)), buf.getFloat64(0)) : Number(x) | 0);
        const fn = inst.exports[f];
        if (!fn) end = 'missing'; else end = 'r' + show(fn(...a));
      } catch (e) {
        end = e instanceof Cut ? 'cut' : e instanceof WebAssembly.RuntimeError ? 'trap ' + e.message : e instanceof RangeError ? 'overflow' : 'error ' + e.message;
      }
      r.push([trace.slice(0, 8000), end, out]);
    }
    res = { r };
  } catch (e) { res = { err: String(e.message) }; }
  process.stdout.write(JSON.stringify(res) + '\n');
});
