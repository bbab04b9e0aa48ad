// Rewrites a WebAssembly module so that every access to its memory is announced to the module's own
// `hw_seen(address, size << 1 | write)` (`hw_seen_n(address, size, write)` for block operations)
// before it happens.
export function watch(bytes) {
  let p = 0;
  const u = () => { let r = 0n, s = 0n, b; do { b = bytes[p++]; r |= BigInt(b & 127) << s; s += 7n; } while (b & 128); return Number(r); };
  const skip = () => { while (bytes[p++] & 128); };
  const leb = (v) => { const o = []; v = BigInt(v); do { let b = Number(v & 127n); v >>= 7n; if (v) b |= 128; o.push(b); } while (v); return o; };
  const sleb = (v) => { const o = []; for (;;) { const b = v & 127; v >>= 7; if ((v === 0 && !(b & 64)) || (v === -1 && (b & 64))) { o.push(b); return o; } o.push(b | 128); } };

  // first pass: types, functions, exports
  const types = [], funcs = [], exp = {};
  let imported = 0, codeAt = -1, codeEnd = 0, codeHead = 0;
  p = 8;
  while (p < bytes.length) {
    const head = p, id = bytes[p++], n = u(), end = p + n;
    if (id === 1) {
      for (let k = u(); k > 0; k--) {
        if (bytes[p++] !== 0x60) throw new Error('type');
        const np = u(); p += np;
        const nr = u(); p += nr;
        types.push(np);
      }
    } else if (id === 2) {
      if (u() !== 0) throw new Error('imports are not expected');
    } else if (id === 3) {
      for (let k = u(); k > 0; k--) funcs.push(u());
    } else if (id === 7) {
      for (let k = u(); k > 0; k--) {
        const l = u(), name = new TextDecoder().decode(bytes.subarray(p, p + l)); p += l;
        const kind = bytes[p++], i = u();
        if (kind === 0) exp[name] = i;
      }
    } else if (id === 10) { codeHead = head; codeAt = p; codeEnd = end; }
    p = end;
  }
  const seen = exp.hw_seen, seenN = exp.hw_seen_n;
  if (seen === undefined || seenN === undefined) return bytes;

  const LOAD = { 0x28: 4, 0x29: 8, 0x2a: 4, 0x2b: 8, 0x2c: 1, 0x2d: 1, 0x2e: 2, 0x2f: 2, 0x30: 1, 0x31: 1, 0x32: 2, 0x33: 2, 0x34: 4, 0x35: 4 };
  // size, and which temporary holds the value: 0 i32, 1 i64, 2 f32, 3 f64, 4 v128
  const STORE = { 0x36: [4, 0], 0x37: [8, 1], 0x38: [4, 2], 0x39: [8, 3], 0x3a: [1, 0], 0x3b: [2, 0], 0x3c: [1, 1], 0x3d: [2, 1], 0x3e: [4, 1] };
  const VLOAD = { 0: 16, 1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 8, 7: 1, 8: 2, 9: 4, 10: 8, 92: 4, 93: 8 };
  const VLANE = { 84: 1, 85: 2, 86: 4, 87: 8, 88: 1, 89: 2, 90: 4, 91: 8 };
  let sites = 0;

  p = codeAt;
  const count = u();
  const bodies = [];
  for (let f = 0; f < count; f++) {
    const size = u(), end = p + size, start = p;
    const own = imported + f;
    if (own === seen || own === seenN) { bodies.push(bytes.subarray(start, end)); p = end; continue; }
    const groups = u(), gAt = p;
    let locals = 0;
    for (let g = 0; g < groups; g++) { locals += u(); p++; }
    const gEnd = p;
    const t = types[funcs[f]] + locals;
    const [A, B, N] = [t, t + 1, t + 2], V = [t + 1, t + 3, t + 4, t + 5, t + 6];
    const out = [...leb(groups + 5), ...bytes.subarray(gAt, gEnd), 3, 0x7f, 1, 0x7e, 1, 0x7d, 1, 0x7c, 1, 0x7b];
    const get = (x) => out.push(0x20, ...leb(x)), set = (x) => out.push(0x21, ...leb(x)), tee = (x) => out.push(0x22, ...leb(x));
    const i32 = (v) => out.push(0x41, ...sleb(v | 0)), call = (x) => out.push(0x10, ...leb(x));
    const memarg = () => { const a = u(); if (a & 64) u(); return u(); };
    const announce = (off, n, w) => { tee(A); if (off) { i32(off); out.push(0x6a); } i32(n << 1 | w); call(seen); get(A); sites++; };
    const raw = (from) => { for (let i = from; i < p; i++) out.push(bytes[i]); };
    while (p < end) {
      const at = p, op = bytes[p++];
      if (op in LOAD) { announce(memarg(), LOAD[op], 0); raw(at); }
      else if (op in STORE) { const [n, v] = STORE[op]; const off = memarg(); set(V[v]); announce(off, n, 1); get(V[v]); raw(at); }
      else if (op === 0xfd) {
        const s = u();
        if (s in VLOAD) { announce(memarg(), VLOAD[s], 0); raw(at); }
        else if (s === 11) { const off = memarg(); set(V[4]); announce(off, 16, 1); get(V[4]); raw(at); }
        else if (s in VLANE) { const off = memarg(); p++; set(V[4]); announce(off, VLANE[s], s >= 88 ? 1 : 0); get(V[4]); raw(at); }
        else { if (s === 12 || s === 13) p += 16; else if (s >= 21 && s <= 34) p++; raw(at); }
      } else if (op === 0xfc) {
        const s = u();
        if (s === 10) {
          p += 2;
          set(N); set(B); tee(A); get(N); i32(1); call(seenN); get(B); get(N); i32(0); call(seenN); get(A); get(B); get(N); sites++;
        } else if (s === 11) {
          p += 1;
          set(N); set(B); tee(A); get(N); i32(1); call(seenN); get(A); get(B); get(N); sites++;
        } else if (s === 8 || s === 12 || s === 14) { skip(); skip(); } else if (s > 7) skip();
        raw(at);
      } else {
        if (op === 0x02 || op === 0x03 || op === 0x04) skip();
        else if (op === 0x0c || op === 0x0d || op === 0x10 || op === 0x12 || (op >= 0x20 && op <= 0x26) || op === 0xd0 || op === 0xd2 ||
          op === 0x3f || op === 0x40 || op === 0x41 || op === 0x42) skip();
        else if (op === 0x0e) { for (let k = u(); k >= 0; k--) skip(); }
        else if (op === 0x11 || op === 0x13) { skip(); skip(); }
        else if (op === 0x1c) { for (let k = u(); k > 0; k--) skip(); }
        else if (op === 0x43) p += 4;
        else if (op === 0x44) p += 8;
        else if ((op >= 0x06 && op <= 0x0a) || op === 0x18 || op === 0x19 || op === 0x1f || op === 0xfe || op === 0xfb) throw new Error('opcode ' + op);
        raw(at);
      }
    }
    if (p !== end) throw new Error('function ' + f + ' does not decode');
    bodies.push(Uint8Array.from(out));
  }
  if (p !== codeEnd) throw new Error('code section does not decode');
  const cnt = leb(count);
  const sizes = bodies.map((b) => leb(b.length));
  const total = cnt.length + bodies.reduce((a, b, i) => a + b.length + sizes[i].length, 0);
  const res = new Uint8Array(codeHead + 1 + 10 + total + bytes.length - codeEnd);
  let q = 0;
  const put = (x) => { res.set(x, q); q += x.length; };
  put(bytes.subarray(0, codeHead)); put([10]); put(leb(total)); put(cnt);
  bodies.forEach((b, i) => { put(sizes[i]); put(b); });
  put(bytes.subarray(codeEnd));
  watch.sites = sites;
  return res.subarray(0, q);
}
