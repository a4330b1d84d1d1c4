// Oracle server: executes scenarios (see scenario.py) on V8's WebAssembly engine.  One JSON line in, one JSON line out.
'use strict';
const rl = require('readline').createInterface({ input: process.stdin, terminal: false });
const M64 = (1n << 64n) - 1n;
const fbuf = new DataView(new ArrayBuffer(8));
function toJS(t, v) { // v: decimal string of the bit pattern
  switch (t) {
    case 'i32': return Number(BigInt.asIntN(32, BigInt(v)));
    case 'i64': return BigInt.asIntN(64, BigInt(v));
    case 'f32': fbuf.setUint32(0, Number(BigInt(v))); return fbuf.getFloat32(0);
    case 'f64': fbuf.setBigUint64(0, BigInt(v)); return fbuf.getFloat64(0);
    case 'externref': return v === null ? null : 'x' + v;
  }
  throw new Error('toJS ' + t);
}
function fromJS(t, x) {
  switch (t) {
    case 'i32': return String(x >>> 0);
    case 'i64': return String(BigInt.asUintN(64, x));
    case 'f32': if (x !== x) return 'nan'; fbuf.setFloat32(0, x); return String(fbuf.getUint32(0));
    case 'f64': if (x !== x) return 'nan'; fbuf.setFloat64(0, x); return String(fbuf.getBigUint64(0));
    case 'externref': return x === null ? null : x.slice(1);
    case 'funcref': return x === null ? null : 'f';
  }
  throw new Error('fromJS ' + t);
}
function mix(params, args) {
  let h = 0x9E3779B97F4A7C15n;
  for (let i = 0; i < params.length; i++) {
    const t = params[i];
    let v = fromJS(t, args[i]);
    let n = (v === null) ? 77n : (v === 'nan' ? 99n : (v === 'f' ? 55n : BigInt(v)));
    h = ((h ^ n) * 0x100000001B3n + BigInt(i)) & M64;
    h = h ^ (h >> 29n);
  }
  return h;
}
function hostfunc(ctx, id, d) {
  const f = (...args) => {
    ctx.trace.push([id, d.params.map((t, i) => fromJS(t, args[i]))]);
    if (ctx.trace.length > 20000) throw new Error('trace limit');
    if (d.beh === 'throw') throw new Error('host');
    let h = mix(d.params, args);
    if (d.beh === 'throwodd' && (h & 3n) === 3n) throw new Error('host');
    if (d.beh === 'reenter') {
      const [inst, name, params] = d.target;
      const g = ctx.inst[inst] && ctx.inst[inst].exports[name];
      if (g && ctx.depth < 3) {
        ctx.depth++;
        try {
          const a = params.map((t, i) => (t === 'i64' ? BigInt.asIntN(64, h >> BigInt(i)) : Number(BigInt.asIntN(32, (h >> BigInt(8 * i)) & 0xffn))));
          const r = g(...a);
          if (r !== undefined) for (const x of (Array.isArray(r) ? r : [r])) h = (h * 31n + BigInt.asUintN(64, BigInt(x))) & M64;
        } catch (e) {
          if (!d.catch) throw e;
          h = (h * 31n + 1234567n) & M64;
        } finally { ctx.depth--; }
      }
    }
    const out = d.results.map((t, i) => {
      const w = ((h >> BigInt(7 * i)) ^ (h << 3n)) & M64;
      switch (t) {
        case 'i32': return Number(BigInt.asIntN(32, w));
        case 'i64': return BigInt.asIntN(64, w);
        case 'f32': return Number(BigInt.asIntN(16, w));
        case 'f64': return Number(BigInt.asIntN(32, w)) / 4;
        case 'externref': return 'x' + String(Number(w & 0xffffn));
      }
    });
    return out.length === 0 ? undefined : out.length === 1 ? out[0] : out;
  };
  return f;
}
function resolve(ctx, r) {
  if (r.host !== undefined) return ctx.host[r.host];
  if (!ctx.inst[r.inst]) throw new Error('noinst');
  return ctx.inst[r.inst].exports[r.export];
}
function b64(u8) { return Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength).toString('base64'); }
function fnv(u8) { return require('crypto').createHash('md5').update(u8).digest('hex'); }
function errkind(e) {
  if (e instanceof WebAssembly.CompileError) return 'compile:' + e.message.slice(0, 300);
  if (e instanceof WebAssembly.LinkError) return 'link:' + e.message.slice(0, 200);
  if (e instanceof WebAssembly.RuntimeError) return 'trap:' + e.message;
  if (e instanceof RangeError) return 'range:' + e.message;
  return 'other:' + (e && e.constructor && e.constructor.name) + ':' + (e && e.message);
}
function run(sc) {
  const ctx = { host: {}, inst: {}, trace: [], depth: 0 };
  const fns = new Map();
  for (const [id, d] of Object.entries(sc.host || {})) {
    if (d.kind === 'func') ctx.host[id] = hostfunc(ctx, id, d);
    else if (d.kind === 'memory') ctx.host[id] = new WebAssembly.Memory(d.max === null ? { initial: d.min } : { initial: d.min, maximum: d.max });
    else if (d.kind === 'table') {
      const o = { element: d.reftype === 'funcref' ? 'anyfunc' : 'externref', initial: d.min };
      if (d.max !== null) o.maximum = d.max;
      ctx.host[id] = d.reftype === 'funcref' ? new WebAssembly.Table(o) : new WebAssembly.Table(o, null);
    } else if (d.kind === 'global') ctx.host[id] = new WebAssembly.Global({ value: d.type === 'funcref' ? 'anyfunc' : d.type, mutable: d.mut }, d.type === 'funcref' ? null : toJS(d.type, d.value));
  }
  const out = [];
  for (const s of sc.steps) {
    ctx.trace = [];
    ctx.depth = 0;
    let r = {};
    try {
      switch (s.op) {
        case 'validate': r.ok = WebAssembly.validate(Buffer.from(sc.mods[s.mod], 'base64')); break;
        case 'inst': {
          const bin = Buffer.from(sc.mods[s.mod], 'base64');
          const m = new WebAssembly.Module(bin);
          const imp = {};
          for (const d of WebAssembly.Module.imports(m)) imp[d.module] = imp[d.module] || {};
          for (const [a, b, ref] of s.imports) { imp[a] = imp[a] || {}; imp[a][b] = resolve(ctx, ref); }
          ctx.inst[s.id] = new WebAssembly.Instance(m, imp);
          r.ok = [];
          break;
        }
        case 'call': {
          const f = resolve(ctx, { inst: s.inst, export: s.name });
          if (typeof f !== 'function') throw new Error('noexport');
          const v = f(...s.args.map(([t, x]) => toJS(t, x)));
          r.ok = s.results.length === 0 ? [] : (s.results.length === 1 ? [v] : v).map((x, i) => fromJS(s.results[i], x));
          break;
        }
        case 'callrange': {
          const f = resolve(ctx, { inst: s.inst, export: s.name });
          const traps = [];
          for (let i = 0; i < s.n; i++) { try { f(i); } catch (e) { traps.push(i); } }
          r.ok = traps;
          break;
        }
        case 'memset': { const m = new Uint8Array(resolve(ctx, s.mem).buffer); m.set(Buffer.from(s.b64, 'base64'), s.off); r.ok = []; break; }
        case 'memget': { const m = new Uint8Array(resolve(ctx, s.mem).buffer); r.ok = b64(m.subarray(s.off, s.off + s.len)); break; }
        case 'memhash': { const m = new Uint8Array(resolve(ctx, s.mem).buffer); r.ok = [m.length, fnv(m)]; break; }
        case 'gget': { const g = resolve(ctx, s.g); r.ok = fromJS(s.t, g.value); break; }
        case 'gset': { const g = resolve(ctx, s.g); g.value = toJS(s.t, s.v); r.ok = []; break; }
        case 'mgrow': { const m = resolve(ctx, s.mem); r.ok = m.grow(s.n); break; }
        case 'tsize': { const t = resolve(ctx, s.tab); r.ok = t.length; break; }
        default: throw new Error('op ' + s.op);
      }
    } catch (e) { r = { err: errkind(e) }; }
    if (ctx.trace.length) r.trace = ctx.trace;
    out.push(r);
  }
  return out;
}
rl.on('line', (l) => {
  let o;
  try { o = run(JSON.parse(l)); } catch (e) { o = { fatal: String(e && e.stack) }; }
  process.stdout.write(JSON.stringify(o) + '\n');
});
rl.on('close', () => process.exit(0));
