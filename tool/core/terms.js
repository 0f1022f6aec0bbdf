'use strict';
// Hash-consed, value-numbered terms.  Every abstract value the analyses track is a term; two program
// points that compute "the same thing" get the same term however the source spells it.
const table = new Map();
let nextId = 1;
// A binder (maparr, exists, filter, flatmap) names its variable λh, h one more than any binder inside its body,
// so equal terms are identical and no name is shadowed.
const isBinder = (op, args, val) => args.length === 3 && args[1].op === 'sym' && (op === 'maparr' || (op === 'app' && (val === 'exists' || val === 'filter' || val === 'flatmap'))) && args[1].val.startsWith('λ');
const lamTop = new Map();
function topBinder(t) { // highest λ number used inside t
  if (t.op === 'sym') return t.val.startsWith('λ') && t.val[1] !== '?' ? Number(t.val.slice(1)) : 0;
  if (!t.args.length) return 0;
  let r = lamTop.get(t);
  if (r === undefined) { r = 0; for (const a of t.args) r = Math.max(r, topBinder(a)); lamTop.set(t, r); }
  return r;
}
let tmpN = 0;
const binder = () => mk('sym', [], 'λ?' + ++tmpN);
function mk(op, args, val, extra) {
  if (isBinder(op, args, val)) {
    const tmp = args[1].val[1] === '?' ? args[1] : binder(), open = subst(args[2], args[1], tmp), bv = mk('sym', [], 'λ' + (1 + topBinder(open)));
    args = [args[0], bv, subst(open, tmp, bv)];
  }
  let key = op + '(';
  for (const a of args) key += a.id + ',';
  key += ')';
  if (val !== undefined) key += typeof val === 'bigint' ? 'n' + val : typeof val === 'string' ? 's' + val : typeof val + String(val);
  let t = table.get(key);
  if (!t) {
    t = { id: nextId++, op, args, val };
    if (extra) Object.assign(t, extra);
    table.set(key, t);
  }
  return t;
}
const K = v => mk('const', [], v);                       // bigint | string | boolean | null | undefined-as-op
const TRUE = K(true), FALSE = K(false), NULL = mk('null', []), UNDEF = mk('undef', []);
const num = n => K(BigInt(n));
const ZERO = num(0), ONE = num(1);
const str = s => K(String(s));
const bool = b => (b ? TRUE : FALSE);
const isConst = t => t.op === 'const' || t.op === 'null' || t.op === 'undef';
const isNum = t => t.op === 'const' && typeof t.val === 'bigint';
const isBool = t => t.op === 'const' && typeof t.val === 'boolean';
const isStr = t => t.op === 'const' && typeof t.val === 'string';
let fresh = 0;
const sym = name => mk('sym', [], name);
const freshSym = (hint, extra) => mk('sym', [], `${hint}#${++fresh}`, extra);
// |x| = |-x|: one spelling for both
const app = (f, ...args) => f === 'abs' && args.length === 1 ? absOf(args[0]) : mk('app', args, f);
function absOf(x) {
  if (isNum(x)) return num(x.val < 0n ? -x.val : x.val);
  const y = fromLin(linScale(toLin(x), -1n));
  return mk('app', [pp(x) <= pp(y) ? x : y], 'abs');
}
const root = name => mk('root', [], name);
const ref = hint => mk('ref', [], `${hint}#${++fresh}`);
const fnVal = (key, extra) => mk('fn', [], key, extra);

// projections ---------------------------------------------------------------
function fld(o, name) {
  if (o.op === 'struct') { const i = o.val.split('|')[1].split(',').indexOf(name); if (i >= 0) return o.args[i]; }
  if (o.op === 'arr' && name === 'length') return num(o.args.length);
  if (o.op === 'maparr' && name === 'length') return o.args[0];
  if (o.op === 'const' && typeof o.val === 'string' && name === 'length') return num(o.val.length);
  if (o.op === 'emptybytes' && name === 'length') return ZERO;
  return mk('fld', [o], name);
}
function idx(o, i) {
  if (o.op === 'arr' && isNum(i) && i.val >= 0n && i.val < BigInt(o.args.length)) return o.args[Number(i.val)];
  if (o.op === 'maparr') return subst(o.args[2], o.args[1], i);
  return mk('idx', [o, i]);
}
const EMPTYBYTES = mk('emptybytes', []);
const arr = els => mk('arr', els);
const struct = (name, fields, vals) => mk('struct', vals, `${name}|${fields.join(',')}`);

// linear arithmetic -----------------------------------------------------------
// lin: val = "c;k1,k2.." (coefs) args = atoms sorted by id
function toLin(t) {
  if (isNum(t)) return { c: t.val, m: new Map() };
  if (t.op === 'lin') {
    const [c, ks] = t.val.split(';');
    const m = new Map(); const cs = ks.split(',');
    t.args.forEach((a, i) => m.set(a, BigInt(cs[i])));
    return { c: BigInt(c), m };
  }
  return { c: 0n, m: new Map([[t, 1n]]) };
}
function fromLin(l) {
  const es = [...l.m].filter(e => e[1] !== 0n).sort((a, b) => a[0].id - b[0].id);
  if (!es.length) return K(l.c);
  if (es.length === 1 && es[0][1] === 1n && l.c === 0n) return es[0][0];
  return mk('lin', es.map(e => e[0]), `${l.c};${es.map(e => e[1]).join(',')}`);
}
function linAdd(a, b, k = 1n) {
  const m = new Map(a.m);
  for (const [t, c] of b.m) { const n = (m.get(t) || 0n) + k * c; if (n === 0n) m.delete(t); else m.set(t, n); }
  return { c: a.c + k * b.c, m };
}
const linScale = (a, k) => ({ c: a.c * k, m: new Map([...a.m].map(([t, c]) => [t, c * k])) });
const add = (a, b) => fromLin(linAdd(toLin(a), toLin(b)));
const sub = (a, b) => fromLin(linAdd(toLin(a), toLin(b), -1n));
function mul(a, b) {
  if (isNum(a)) return fromLin(linScale(toLin(b), a.val));
  if (isNum(b)) return fromLin(linScale(toLin(a), b.val));
  return a.id < b.id ? app('mul', a, b) : app('mul', b, a);
}
const neg = a => fromLin(linScale(toLin(a), -1n));

// booleans --------------------------------------------------------------------
function le0(l) { // l : lin object, l <= 0
  const t = fromLin(l);
  if (isNum(t)) return bool(t.val <= 0n);
  return mk('le0', [t]);
}
const le = (a, b) => le0(linAdd(toLin(a), toLin(b), -1n));
const lt = (a, b) => { const l = linAdd(toLin(a), toLin(b), -1n); l.c += 1n; return le0(l); };
function not(t) {
  if (isBool(t)) return bool(!t.val);
  if (t.op === 'not') return t.args[0];
  if (t.op === 'le0') { const l = linScale(toLin(t.args[0]), -1n); l.c += 1n; return le0(l); }
  return mk('not', [t]);
}
const numericish = t => isNum(t) || t.op === 'lin';
const TOTAL = new Set(['keccak', 'packedkeccak', 'ethsigned', 'recover', 'abi', 'encode', 'includes', 'exists', 'subset', 'set', 'elems', 'mapvals', 'mapkeys', 'mapentries', 'filter', 'flatmap', 'setdiff', 'union', 'intersection', 'concat', 'concatArr', 'concatBytes', 'typeof', 'lower', 'sig', 'slice']);
const neverUndef = t => t.op === 'root' || t.op === 'arr' || t.op === 'struct' || t.op === 'lin' || t.op === 'maparr' || t.op === 'not' || t.op === 'le0' || t.op === 'eq' || (t.op === 'app' && TOTAL.has(t.val));
function eq(a, b) {
  if (a === b) return TRUE;
  if (isConst(a) && isConst(b)) {
    // canonical constants: distinct => different
    return FALSE;
  }
  if (a.op === 'app' && b.op === 'app' && a.val === 'keccak' && b.val === 'keccak') return eq(a.args[0], b.args[0]);
  if (((a.op === 'undef' || a.op === 'null') && neverUndef(b)) || ((b.op === 'undef' || b.op === 'null') && neverUndef(a))) return FALSE;
  if (isBool(a)) return a.val ? b : not(b);
  if (isBool(b)) return b.val ? a : not(a);
  if (a.op === 'emptybytes') return eq(fld(b, 'length'), ZERO);
  if (b.op === 'emptybytes') return eq(fld(a, 'length'), ZERO);
  if (a.op === 'lin' || b.op === 'lin') {
    const d = linAdd(toLin(a), toLin(b), -1n);
    const es = [...d.m].sort((x, y) => x[0].id - y[0].id);
    if (!es.length) return bool(d.c === 0n);
    if (es.length === 1 && (es[0][1] === 1n || es[0][1] === -1n)) return eq(es[0][0], K(-d.c * es[0][1]));
    if (es.length === 2 && d.c === 0n && es[0][1] + es[1][1] === 0n) return eq(es[0][0], es[1][0]);
    return mk('eqz', [fromLin(es[0][1] < 0n ? linScale(d, -1n) : d)]);
  }
  const refish = t => t.op === 'ref' || t.op === 'fn';
  if (refish(a) && (refish(b) || isConst(b))) return FALSE;
  if (refish(b) && isConst(a)) return FALSE;
  return a.id < b.id ? mk('eq', [a, b]) : mk('eq', [b, a]);
}
const ne = (a, b) => not(eq(a, b));
function and(a, b) {
  if (isBool(a)) return a.val ? b : FALSE;
  if (isBool(b)) return b.val ? a : FALSE;
  if (a === b) return a;
  return mk('and', [a, b]);
}
function or(a, b) {
  if (isBool(a)) return a.val ? TRUE : b;
  if (isBool(b)) return b.val ? TRUE : a;
  if (a === b) return a;
  return mk('or', [a, b]);
}
function ite(c, a, b) {
  if (isBool(c)) return c.val ? a : b;
  if (a === b) return a;
  if (a === TRUE && b === FALSE) return c;
  if (a === FALSE && b === TRUE) return not(c);
  return mk('ite', [c, a, b]);
}

// rebuild a term through the smart constructors
function rebuild(t, args) {
  switch (t.op) {
    case 'fld': return fld(args[0], t.val);
    case 'idx': return idx(args[0], args[1]);
    case 'lin': {
      const [c, ks] = t.val.split(';'); const cs = ks.split(',');
      let l = { c: BigInt(c), m: new Map() };
      args.forEach((a, i) => { l = linAdd(l, toLin(a), BigInt(cs[i])); });
      return fromLin(l);
    }
    case 'le0': return le0(toLin(args[0]));
    case 'eq': return eq(args[0], args[1]);
    case 'eqz': return eq(args[0], ZERO);
    case 'not': return not(args[0]);
    case 'and': return and(args[0], args[1]);
    case 'or': return or(args[0], args[1]);
    case 'ite': return ite(args[0], args[1], args[2]);
    case 'app': return mkApp(t.val, args);
    default: return mk(t.op, args, t.val);
  }
}
// app with semantic normalisation
function mkApp(f, args) {
  if (f === 'decode') {
    const [ty, x] = args;
    if (x.op === 'app' && x.val === 'encode' && x.args.length === 1) return x.args[0];
  }
  if (f === 'tsigned') { // threshold signature predicate (addresses, data, signatures)
    const [a, d, s] = args;
    if (a.op === 'arr' && a.args.length === 1 && s.op === 'arr' && s.args.length === 1) return eq(signer(d, s.args[0]), a.args[0]);
  }
  return f === 'abs' ? app(f, ...args) : mk('app', args, f);
}
const signer = (d, s) => app('recover', app('ethsigned', app('keccak', d)), s);

function subst(t, from, to, memo = new Map()) {
  if (t === from) return to;
  if (!t.args.length) return t;
  let r = memo.get(t);
  if (r) return r;
  let ch = false;
  const na = t.args.map(a => { const n = subst(a, from, to, memo); if (n !== a) ch = true; return n; });
  r = ch ? rebuild(t, na) : t;
  memo.set(t, r);
  return r;
}
function substMany(t, map, memo = new Map()) {
  if (map.has(t)) return map.get(t);
  if (!t.args.length) return t;
  let r = memo.get(t);
  if (r) return r;
  let ch = false;
  const na = t.args.map(a => { const n = substMany(a, map, memo); if (n !== a) ch = true; return n; });
  r = ch ? rebuild(t, na) : t;
  memo.set(t, r);
  return r;
}
const containsCache = new Map();
function contains(t, x) {
  if (t === x) return true;
  if (!t.args.length) return false;
  const k = t.id * 4194304 + x.id;
  let r = containsCache.get(k);
  if (r === undefined) { r = t.args.some(a => contains(a, x)); containsCache.set(k, r); }
  return r;
}
function some(t, p, seen = new Set()) {
  if (seen.has(t)) return false;
  seen.add(t);
  return p(t) || t.args.some(a => some(a, p, seen));
}
function collect(t, p, out = new Set(), seen = new Set()) {
  if (seen.has(t)) return out;
  seen.add(t);
  if (p(t)) out.add(t);
  t.args.forEach(a => collect(a, p, out, seen));
  return out;
}
// pretty printer
function pp(t, d = 0) {
  if (!t) return '<none>';
  if (d > 14) return '…';
  const a = i => pp(t.args[i], d + 1);
  switch (t.op) {
    case 'const': return typeof t.val === 'string' ? JSON.stringify(t.val) : String(t.val);
    case 'null': return 'null'; case 'undef': return 'undefined'; case 'emptybytes': return 'bytes(0)';
    case 'sym': case 'root': case 'ref': case 'fn': return t.val;
    case 'fld': return `${a(0)}.${t.val}`;
    case 'idx': return `${a(0)}[${a(1)}]`;
    case 'lin': { const [c, ks] = t.val.split(';'); const cs = ks.split(',');
      return '(' + t.args.map((x, i) => (cs[i] === '1' ? '' : cs[i] === '-1' ? '-' : cs[i] + '*') + pp(x, d + 1)).join(' + ') + (c !== '0' ? ' + ' + c : '') + ')'; }
    case 'le0': return `${a(0)} <= 0`;
    case 'eq': return `${a(0)} == ${a(1)}`;
    case 'eqz': return `${a(0)} == 0`;
    case 'not': return t.args[0].op === 'eq' ? `${pp(t.args[0].args[0], d + 1)} != ${pp(t.args[0].args[1], d + 1)}` : `!(${a(0)})`;
    case 'and': return `(${a(0)} && ${a(1)})`;
    case 'or': return `(${a(0)} || ${a(1)})`;
    case 'ite': return `(${a(0)} ? ${a(1)} : ${a(2)})`;
    case 'arr': return `[${t.args.map(x => pp(x, d + 1)).join(', ')}]`;
    case 'struct': { const [n, fs] = t.val.split('|'); const f = fs.split(','); return `${n}{${t.args.map((x, i) => f[i] + ':' + pp(x, d + 1)).join(', ')}}`; }
    case 'app': return `${t.val}(${t.args.map(x => pp(x, d + 1)).join(', ')})`;
    default: return `${t.op}${t.val !== undefined ? ':' + t.val : ''}(${t.args.map(x => pp(x, d + 1)).join(', ')})`;
  }
}
module.exports = { binder, mk, K, TRUE, FALSE, NULL, UNDEF, num, ZERO, ONE, str, bool, isConst, isNum, isBool, isStr, sym, freshSym, app, mkApp, root, ref, fnVal, fld, idx, EMPTYBYTES, arr, struct, toLin, fromLin, linAdd, linScale, add, sub, mul, neg, le0, le, lt, not, eq, ne, and, or, ite, signer, subst, substMany, contains, some, collect, pp };
