'use strict';
// Solidity front end: solc's type-checked AST, lowered per function to the structured IR.
const fs = require('fs'), path = require('path');
const T = require('../core/terms'); const S = require('../core/state'); const { Interp } = require('../core/interp');
const REPO = process.env.VERIF_REPO || '/repo';

function loadSolc() {
  const cands = [path.join(REPO, 'node_modules/hardhat/node_modules/solc'), path.join(REPO, 'node_modules/solc')];
  let err;
  for (const c of cands) try { const before = process.listeners('uncaughtException').slice(), b2 = process.listeners('unhandledRejection').slice(); const m = require(c);
    process.listeners('uncaughtException').forEach(l => before.includes(l) || process.removeListener('uncaughtException', l));
    process.listeners('unhandledRejection').forEach(l => b2.includes(l) || process.removeListener('unhandledRejection', l));
    return m; } catch (e) { err = e; }
  throw err;
}
let cached;
function compile() {
  if (cached) return cached;
  const solc = loadSolc();
  const sources = {};
  const walk = d => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) walk(p); else if (e.name.endsWith('.sol')) sources[path.relative(REPO, p)] = { content: fs.readFileSync(p, 'utf8') }; } };
  walk(path.join(REPO, 'contracts'));
  const input = { language: 'Solidity', sources, settings: { outputSelection: { '*': { '': ['ast'], '*': ['storageLayout'] } } } };
  const imp = p => { for (const b of [REPO, path.join(REPO, 'node_modules')]) { const f = path.join(b, p); if (fs.existsSync(f)) return { contents: fs.readFileSync(f, 'utf8') }; } return { error: 'not found ' + p }; };
  const out = JSON.parse(solc.compile(JSON.stringify(input), { import: imp }));
  const errs = (out.errors || []).filter(e => e.severity === 'error');
  if (errs.length) throw new Error('solc: ' + errs[0].formattedMessage);
  cached = new Program(out);
  return cached;
}
class Program {
  constructor(out) {
    this.out = out; this.byId = new Map(); this.files = []; this.contracts = new Map();
    for (const [f, s] of Object.entries(out.sources)) {
      this.files[s.id] = f;
      const visit = (n, parent, contract, fn) => {
        if (!n || typeof n !== 'object') return;
        if (Array.isArray(n)) { n.forEach(x => visit(x, parent, contract, fn)); return; }
        if (n.nodeType) {
          if (n.id !== undefined && n.nodeType !== 'ImportDirective') { if (!this.byId.has(n.id)) this.byId.set(n.id, n); Object.defineProperty(n, '_p', { value: parent, enumerable: false, configurable: true }); Object.defineProperty(n, '_c', { value: contract, enumerable: false, configurable: true }); Object.defineProperty(n, '_f', { value: fn, enumerable: false, configurable: true }); }
          if (n.nodeType === 'ContractDefinition') { contract = n; if (!this.contracts.has(n.name)) this.contracts.set(n.name, n); n.file = f; }
          if (n.nodeType === 'FunctionDefinition' || n.nodeType === 'ModifierDefinition') fn = n;
          parent = n;
        }
        for (const k of Object.keys(n)) if (k !== 'typeDescriptions' && k !== 'src') visit(n[k], parent, contract, fn);
      };
      visit(s.ast, null, null, null);
    }
    this.lines = {};
  }
  loc(src) {
    if (!src) return '?';
    const [o, , f] = src.split(':').map(Number); const file = this.files[f]; if (!file) return src;
    let L = this.lines[file];
    if (!L) { const p = [path.join(REPO, file), path.join(REPO, 'node_modules', file)].find(x => fs.existsSync(x)); L = this.lines[file] = p ? fs.readFileSync(p) : Buffer.alloc(0); }
    let line = 1; for (let i = 0; i < o && i < L.length; i++) if (L[i] === 10) line++;
    return `${file}:${line}`;
  }
  linear(c) { return c.linearizedBaseContracts.map(i => this.byId.get(i)); }
  fnsOf(c) { return c.nodes.filter(n => n.nodeType === 'FunctionDefinition'); }
  // most derived implementation of function decl `fd` in contract c
  resolve(fd, c) {
    if (!c || !c.linearizedBaseContracts.includes(fd._c && fd._c.id)) return fd;
    for (const b of this.linear(c)) for (const g of this.fnsOf(b)) if (g.name === fd.name && g.kind === fd.kind && g.implemented !== false && g.body && sameParams(g, fd)) return g;
    return fd;
  }
  find(c, name) { for (const b of this.linear(c)) for (const g of this.fnsOf(b)) if (g.name === name && g.body) return g; return null; }
  // public/external entry points, most derived first
  entries(c) {
    const seen = new Set(), r = [];
    for (const b of this.linear(c)) for (const g of this.fnsOf(b)) {
      if (g.kind !== 'function' || !['public', 'external'].includes(g.visibility)) continue;
      const k = g.name + '(' + g.parameters.parameters.map(p => p.typeDescriptions.typeString.replace(/ (memory|calldata|storage.*)$/, '')).join() + ')';
      if (seen.has(k)) continue; seen.add(k);
      if (g.body) r.push(g);
    }
    return r;
  }
  descendants(name) { const base = this.contracts.get(name); if (!base) return []; return [...this.contracts.values()].filter(c => c.linearizedBaseContracts.includes(base.id)); }
}
const ptype = p => p.typeDescriptions.typeString.replace(/ (memory|calldata|storage ref|storage pointer)/g, '');
const sameParams = (a, b) => a.parameters.parameters.length === b.parameters.parameters.length && a.parameters.parameters.every((p, i) => ptype(p) === ptype(b.parameters.parameters[i]));
const ti = n => (n.typeDescriptions && n.typeDescriptions.typeIdentifier) || '';
const ts = n => (n.typeDescriptions && n.typeDescriptions.typeString) || '';
const isStorage = n => /_storage(_ptr)?$/.test(ti(n)) || /^t_mapping/.test(ti(n));
const isRefType = n => /^t_(array|struct|bytes_|string_|mapping)/.test(ti(n));

class SolFront {
  constructor(prog, opts = {}) { this.p = prog; this.opts = opts; this.cache = new Map(); this.primsUsed = new Set();
    const ab = prog.contracts.get('AStateChannelManagerProxy');
    // application hooks: internal functions the abstract proxy leaves to the deployer
    this.hooks = new Set(opts.noHooks || !ab ? [] : prog.fnsOf(ab).filter(f => !f.body && f.visibility === 'internal').map(f => f.name));
  }
  interp(o = {}) { const I = new Interp(Object.assign({ unsigned: true }, o)); I.front = this; return I; }
  // ---- default values
  dflt(tn, I, st, node, mem) {
    // tn: TypeName AST ; returns pure default term
    switch (tn.nodeType) {
      case 'ElementaryTypeName': return /^(bytes|string)$/.test(tn.name) ? T.EMPTYBYTES : tn.name === 'bool' ? T.FALSE : T.ZERO;
      case 'UserDefinedTypeName': {
        const d = this.p.byId.get(tn.referencedDeclaration);
        if (d && d.nodeType === 'StructDefinition') { const ms = d.members.filter(m => m.typeName.nodeType !== 'Mapping'); return T.struct(d.name, ms.map(m => m.name), ms.map(m => this.dflt(m.typeName))); }
        return T.ZERO;
      }
      case 'ArrayTypeName': return T.arr([]);
      default: return T.ZERO;
    }
  }
  structDef(n) { const m = /^t_struct\$_\w+?_\$(\d+)_/.exec(ti(n)); return m && this.p.byId.get(Number(m[1])); }
  allocStruct(I, st, node, d) {
    const r = I.alloc(node, d.name);
    S.refFields.set(r, { name: d.name, names: d.members.filter(m => m.typeName.nodeType !== 'Mapping').map(m => m.name) });
    let s = st;
    for (const m of d.members) {
      const sd = m.typeName.nodeType === 'UserDefinedTypeName' && this.p.byId.get(m.typeName.referencedDeclaration);
      if (sd && sd.nodeType === 'StructDefinition') { const q = this.allocStruct(I, s, { src: (node.src || '') + '.' + m.name }, sd); s = q.st.write(T.fld(r, m.name), q.v); }
      else if (m.typeName.nodeType !== 'Mapping') s = s.write(T.fld(r, m.name), this.dflt(m.typeName));
    }
    return { st: s, v: r };
  }
  // ---- functions
  fn(fd) {
    let f = this.cache.get(fd.id);
    if (f) return f;
    f = { key: 'sol' + fd.id, name: (fd._c ? fd._c.name + '.' : '') + (fd.name || fd.kind), decl: fd, params: fd.parameters.parameters.map(p => ({ d: p.id, name: p.name })), maxDepth: 1 };
    this.cache.set(fd.id, f);
    const rets = fd.returnParameters ? fd.returnParameters.parameters : [];
    f.locals = (I, s, fid) => {
      for (const r of rets) {
        const sd = this.structDef(r);
        let v;
        if (sd && !isStorage(r)) { const q = this.allocStruct(I, s, r, sd); s.store = q.st.store; v = q.v; }
        else v = r.typeName ? this.dflt(r.typeName) : T.ZERO;
        s.env.set(fid + ':' + r.id, v);
      }
    };
    const retv = (I, st, cx) => {
      if (!rets.length) return T.UNDEF;
      const vs = rets.map(r => I.getVar({ d: r.id, name: r.name }, st, cx));
      return vs.length === 1 ? vs[0] : T.mk('tuple', vs);
    };
    f.named = retv;
    let body;
    const getBody = () => body || (body = this.stmt(fd.body, fd));
    const mods = (fd.modifiers || []).filter(m => { const d = this.p.byId.get(m.modifierName.referencedDeclaration); return d && d.nodeType === 'ModifierDefinition'; });
    f.exec = (I, st, cx, out) => {
      if (!mods.length) return I.exec(getBody(), st, cx, out);
      const rk = cx.frame.id + ':$ret';
      const run = (i, s, o) => {
        if (i === mods.length) {
          const oo = { ret: [], brk: [], cont: [] };
          const norm = I.exec(getBody(), s, cx, oo);
          return norm.map(x => x.setVar(rk, retv(I, x, cx))).concat(oo.ret.map(r => r.st.setVar(rk, r.v)));
        }
        const md = this.p.byId.get(mods[i].modifierName.referencedDeclaration);
        let real = md;
        if (cx.contract && cx.contract.linearizedBaseContracts.includes(md._c.id)) for (const b of this.p.linear(cx.contract)) { const g = b.nodes.find(n => n.nodeType === 'ModifierDefinition' && n.name === md.name && n.body); if (g) { real = g; break; } }
        const args = (mods[i].arguments || []).map(a => this.expr(a, fd));
        return I.evList(args, s, cx).flatMap(({ st: s1, vs }) => {
          real.parameters.parameters.forEach((p, k) => { s1 = s1.setVar(cx.frame.id + ':' + p.id, vs[k]); });
          const mcx = Object.assign({}, cx, { ph: s2 => run(i + 1, s2, o) });
          const mo = { ret: [], brk: [], cont: [] };
          const mb = this.mcache(real);
          const norm = I.exec(mb, s1, mcx, mo);
          return norm.concat(mo.ret.map(r => r.st));
        });
      };
      for (const s of run(0, st, out)) out.ret.push({ st: s, v: I.getVar({ d: '$ret' }, s, cx) });
      return [];
    };
    return f;
  }
  mcache(md) { let b = this.cache.get('m' + md.id); if (!b) this.cache.set('m' + md.id, b = this.stmt(md.body, md)); return b; }
  // ---- statements
  stmt(n, fd, un) {
    const src = n.src;
    switch (n.nodeType) {
      case 'Block': return { k: 'block', body: n.statements.map(s => this.stmt(s, fd, un)), src };
      case 'UncheckedBlock': return { k: 'block', body: n.statements.map(s => this.stmt(s, fd, true)), src };
      case 'ExpressionStatement': return { k: 'expr', e: this.expr(n.expression, fd, un), src };
      case 'VariableDeclarationStatement': {
        const ds = n.declarations;
        if (ds.length === 1 && ds[0]) {
          const d = ds[0];
          if (!n.initialValue) {
            const sd = this.structDef(d);
            return { k: 'raws', src, fn: (I, st, cx) => {
              if (sd && !isStorage(d)) { const q = this.allocStruct(I, st, d, sd); return [q.st.setVar(cx.frame.id + ':' + d.id, q.v)]; }
              return [st.setVar(cx.frame.id + ':' + d.id, this.dflt(d.typeName))];
            } };
          }
          return { k: 'let', d: d.id, name: d.name, init: this.conv(this.expr(n.initialValue, fd, un), n.initialValue, d), src };
        }
        return { k: 'lets', ds: ds.map(d => d && { d: d.id, name: d.name }), init: this.expr(n.initialValue, fd, un), src };
      }
      case 'IfStatement': return { k: 'if', c: this.expr(n.condition, fd, un), a: this.stmt(n.trueBody, fd, un), b: n.falseBody && this.stmt(n.falseBody, fd, un), src };
      case 'ForStatement': return { k: 'loop', init: n.initializationExpression && this.stmt(n.initializationExpression, fd, un), cond: n.condition && this.expr(n.condition, fd, un), update: n.loopExpression && this.stmt(n.loopExpression, fd, un), body: this.stmt(n.body, fd, un), src };
      case 'WhileStatement': return { k: 'loop', cond: this.expr(n.condition, fd, un), body: this.stmt(n.body, fd, un), src };
      case 'DoWhileStatement': return { k: 'loop', doWhile: true, cond: this.expr(n.condition, fd, un), body: this.stmt(n.body, fd, un), src };
      case 'Return': {
        if (!n.expression) return { k: 'return', named: (I, st, cx) => this.fn(fd).named(I, st, cx), src };
        const rets = fd.returnParameters.parameters;
        let e;
        if (n.expression.nodeType === 'TupleExpression' && !n.expression.isInlineArray && n.expression.components.length > 1) e = { k: 'tuple', els: n.expression.components.map((c, i) => this.conv(this.expr(c, fd, un), c, rets[i])), src };
        else e = rets.length === 1 ? this.conv(this.expr(n.expression, fd, un), n.expression, rets[0]) : this.expr(n.expression, fd, un);
        return { k: 'return', e, src };
      }
      case 'Break': return { k: 'break', src };
      case 'Continue': return { k: 'continue', src };
      case 'PlaceholderStatement': return { k: 'raws', src, fn: (I, st, cx) => cx.ph(st) };
      case 'EmitStatement': {
        const ev = n.eventCall; const d = this.p.byId.get(ev.expression.referencedDeclaration);
        const args = ev.arguments.map(a => ({ k: 'load', e: this.expr(a, fd, un) }));
        const name = d ? d.name : '?'; const pn = ev.names && ev.names.length ? ev.names : d ? d.parameters.parameters.map(p => p.name) : [];
        return { k: 'expr', src, e: { k: 'prim', src, args, fn: (I, st, vs) => {
          const a = {}; vs.forEach((v, i) => { a[pn[i]] = v; });
          I.emit('emit', st, n, { name, args: a, vs });
          return [{ st: st.addTrace({ key: 'emit' + name + vs.map(v => v.id), kind: 'emit', name, vs }), v: T.UNDEF }];
        } } };
      }
      case 'RevertStatement': return { k: 'throw', src };
      case 'InlineAssembly': {
        const has = /"name":"revert"/.test(JSON.stringify(n.AST || {}));
        if (has) return { k: 'throw', src };
        return { k: 'raws', src, fn: (I, st) => { I.notes.push('assembly ' + this.p.loc(src)); I.emit('asm', st, n, {}); return [st]; } };
      }
      case 'TryStatement': return { k: 'raws', src, fn: (I, st, cx, out) => {
        const r = [];
        for (const c of n.clauses) {
          let b = this.cache.get('t' + c.id); if (!b) this.cache.set('t' + c.id, b = this.stmt(c.block, fd, un));
          if (c.errorName === '' && c === n.clauses[0]) {
            let e = this.cache.get('e' + n.id); if (!e) this.cache.set('e' + n.id, e = this.expr(n.externalCall, fd, un));
            for (const x of I.ev(e, st, cx)) {
              let s = x.st; const ps = c.parameters ? c.parameters.parameters : [];
              ps.forEach((p, i) => { s = s.setVar(cx.frame.id + ':' + p.id, ps.length === 1 ? x.v : x.v.op === 'tuple' ? x.v.args[i] : T.app('proj' + i, x.v)); });
              r.push(...I.exec(b, s, cx, out));
            }
          } else {
            let s = st; (c.parameters ? c.parameters.parameters : []).forEach(p => { s = s.setVar(cx.frame.id + ':' + p.id, I.sym(p, 'caught')); });
            r.push(...I.exec(b, s, cx, out));
          }
        }
        return r;
      } };
      default: throw new Error('stmt ' + n.nodeType + ' ' + this.p.loc(src));
    }
  }
  // implicit conversion to a declared variable/parameter: storage -> memory copies
  conv(e, node, target) {
    if (!node) return e;
    const t = target && ti(target);
    if (isStorage(node) && !(t && (/_storage_ptr$/.test(t) || /^t_mapping/.test(t)))) return { k: 'load', e, src: node.src };
    return e;
  }
  val(n, fd, un) { return this.conv(this.expr(n, fd, un), n, null); }
  // ---- expressions
  expr(n, fd, un) {
    const src = n.src;
    switch (n.nodeType) {
      case 'Literal': {
        if (n.kind === 'number') { let v = n.value.replace(/_/g, ''); const m = /int_const (-?\d+)/.exec(ts(n)); return { k: 'const', v: m ? T.K(BigInt(m[1])) : /^0x/.test(v) ? T.K(BigInt(v)) : T.str(v), src }; }
        if (n.kind === 'bool') return { k: 'const', v: T.bool(n.value === 'true'), src };
        if (n.kind === 'string' || n.kind === 'unicodeString') return { k: 'const', v: n.value === '' ? T.EMPTYBYTES : T.str(n.value !== undefined && n.value !== null ? n.value : 'hex:' + n.hexValue), src };
        return { k: 'const', v: n.hexValue ? T.str('hex:' + n.hexValue) : T.EMPTYBYTES, src };
      }
      case 'Identifier': {
        if (n.name === 'msg' || n.name === 'block' || n.name === 'tx' || n.name === 'abi') return { k: 'const', v: T.sym(n.name), src };
        if (n.name === 'this') return { k: 'this', src };
        const d = this.p.byId.get(n.referencedDeclaration);
        if (d && d.nodeType === 'VariableDeclaration') {
          if (d.stateVariable) {
            if (d.constant && d.value) return this.expr(d.value, fd, un);
            return { k: 'root', t: T.root(d.name), ref: isRefType(n), storage: true, src };
          }
          return { k: 'var', d: d.id, name: d.name, src };
        }
        if (d && d.nodeType === 'FunctionDefinition') return { k: 'const', v: T.fnVal('fn' + d.id, { decl: d }), src };
        return { k: 'const', v: T.sym('id:' + n.name), src };
      }
      case 'TupleExpression':
        if (n.isInlineArray) return { k: 'prim', args: n.components.map(c => this.val(c, fd, un)), src, fn: (I, st, vs) => [{ st, v: T.arr(vs.map(v => S.load(st.store, v))) }] };
        if (n.components.length === 1) return this.expr(n.components[0], fd, un);
        return { k: 'tuple', els: n.components.map(c => c && this.expr(c, fd, un)), src };
      case 'MemberAccess': return this.member(n, fd, un);
      case 'IndexAccess': {
        const bt = ti(n.baseExpression);
        return { k: 'idx', o: this.expr(n.baseExpression, fd, un), i: this.val(n.indexExpression, fd, un), ref: isStorage(n), check: /^t_(array|bytes)/.test(bt), src };
      }
      case 'FunctionCall': return this.call(n, fd, un);
      case 'FunctionCallOptions': return this.expr(n.expression, fd, un);
      case 'Assignment': {
        const L = n.leftHandSide;
        const t = this.expr(L, fd, un);
        let v = this.expr(n.rightHandSide, fd, un);
        if (L.nodeType !== 'TupleExpression') {
          const ptr = L.nodeType === 'Identifier' && /_storage_ptr$/.test(ti(L));
          if (!ptr && isStorage(n.rightHandSide)) v = { k: 'load', e: v, src };
          else if (isStorage(L) && !ptr && isRefType(n.rightHandSide)) v = { k: 'load', e: v, src };
        }
        return { k: 'assign', op: n.operator, t, v, checked: !un, src };
      }
      case 'UnaryOperation':
        if (n.operator === '++' || n.operator === '--') return { k: 'incdec', op: n.operator, prefix: n.prefix, t: this.expr(n.subExpression, fd, un), src };
        if (n.operator === 'delete') return { k: 'assign', op: '=', t: this.expr(n.subExpression, fd, un), v: { k: 'const', v: this.typeDefault(n.subExpression), src }, src, isDelete: true };
        return { k: 'un', op: n.operator, e: this.val(n.subExpression, fd, un), src };
      case 'BinaryOperation': {
        const a = this.val(n.leftExpression, fd, un), b = this.val(n.rightExpression, fd, un);
        if (n.operator === '&&') return { k: 'and', a, b, src };
        if (n.operator === '||') return { k: 'or', a, b, src };
        return { k: 'bin', op: n.operator, a, b, checked: !un && n.operator === '-', src };
      }
      case 'Conditional': return { k: 'cond', c: this.expr(n.condition, fd, un), a: this.expr(n.trueExpression, fd, un), b: this.expr(n.falseExpression, fd, un), src };
      case 'NewExpression': case 'ElementaryTypeNameExpression': return { k: 'const', v: T.sym('type:' + ts(n)), src };
      case 'IndexRangeAccess': return { k: 'prim', args: [this.val(n.baseExpression, fd, un), n.startExpression ? this.val(n.startExpression, fd, un) : { k: 'const', v: T.ZERO }, n.endExpression ? this.val(n.endExpression, fd, un) : { k: 'const', v: T.NULL }], src, fn: (I, st, vs) => [{ st, v: T.app('slice', ...vs) }] };
      default: throw new Error('expr ' + n.nodeType + ' ' + this.p.loc(src));
    }
  }
  typeDefault(n) {
    const id = ti(n);
    if (/^t_array/.test(id)) return T.arr([]);
    if (/^t_(bytes|string)_/.test(id)) return T.EMPTYBYTES;
    const sd = this.structDef(n);
    if (sd) return this.dflt({ nodeType: 'UserDefinedTypeName', referencedDeclaration: sd.id });
    return id === 't_bool' ? T.FALSE : T.ZERO;
  }
  member(n, fd, un) {
    const src = n.src, e = n.expression;
    if (e.nodeType === 'Identifier') {
      if (e.name === 'msg') return n.memberName === 'sender' ? { k: 'raw', src, fn: (I, st, cx) => [{ st, v: cx.sender }] } : { k: 'const', v: T.sym('msg.' + n.memberName), src };
      if (e.name === 'block') return { k: 'const', v: n.memberName === 'timestamp' ? T.sym('now') : T.sym('block.' + n.memberName), src };
      if (e.name === 'tx') return { k: 'const', v: T.sym('tx.' + n.memberName), src };
      const d = this.p.byId.get(e.referencedDeclaration);
      if (d && d.nodeType === 'EnumDefinition') return { k: 'const', v: T.num(d.members.findIndex(m => m.name === n.memberName)), src };
    }
    if (e.nodeType === 'MemberAccess') { const d = this.p.byId.get(e.referencedDeclaration); if (d && d.nodeType === 'EnumDefinition') return { k: 'const', v: T.num(d.members.findIndex(m => m.name === n.memberName)), src }; }
    const rd = n.referencedDeclaration && this.p.byId.get(n.referencedDeclaration);
    if (rd && rd.nodeType === 'FunctionDefinition') return { k: 'const', v: T.fnVal('fn' + rd.id, { decl: rd }), src };
    if (rd && rd.nodeType === 'VariableDeclaration' && rd.stateVariable && /^t_type/.test(ti(e))) return { k: 'root', t: T.root(rd.name), ref: isRefType(n), storage: true, src };
    if (/^t_type|^t_magic/.test(ti(e))) return { k: 'const', v: T.sym('type.' + ts(e) + '.' + n.memberName), src };
    return { k: 'fld', o: this.expr(e, fd, un), name: n.memberName, ref: isStorage(n), src };
  }
  call(n, fd, un) {
    const src = n.src;
    let ex = n.expression; while (ex.nodeType === 'FunctionCallOptions') ex = ex.expression;
    while (ex.nodeType === 'TupleExpression' && ex.components.length === 1) ex = ex.components[0];
    if (n.kind === 'typeConversion') {
      const inner = n.arguments[0]; const e = this.val(inner, fd, un);
      const to = ts(n), from = ts(inner);
      const bits = s => { const m = /^u?int(\d+)/.exec(s); return m ? Number(m[1]) : /^address/.test(s) ? 160 : /^bytes(\d+)$/.test(s) ? Number(RegExp.$1) * 8 : null; };
      const fb = bits(from), tb = bits(to);
      if (fb && tb && tb < fb) return { k: 'prim', args: [e], src, fn: (I, st, [v]) => [{ st, v: T.isConst(v) ? v : T.app('trunc' + tb, v) }] };
      if (/^int_const|^literal_string/.test(from) || e.k === 'const') return e;
      return e;
    }
    if (n.kind === 'structConstructorCall') {
      const sd = this.structDef(n); const names = n.names && n.names.length ? n.names : sd.members.filter(m => m.typeName.nodeType !== 'Mapping').map(m => m.name);
      return { k: 'prim', args: n.arguments.map(a => this.val(a, fd, un)), src, fn: (I, st, vs) => {
        const r = I.alloc(n, sd.name); S.refFields.set(r, { name: sd.name, names: sd.members.filter(m => m.typeName.nodeType !== 'Mapping').map(m => m.name) });
        let s = st; names.forEach((nm, i) => { s = s.write(T.fld(r, nm), vs[i]); });
        return [{ st: s, v: r }];
      } };
    }
    const args = n.arguments;
    // builtins
    if (ex.nodeType === 'Identifier' && !(this.p.byId.get(ex.referencedDeclaration) || {}).nodeType || (ex.nodeType === 'Identifier' && ex.referencedDeclaration < 0)) {
      switch (ex.name) {
        case 'require': case 'assert': return { k: 'raw', src, fn: (I, st, cx, node) => {
          const [t, f] = I.branch2(node.c, st, cx);
          for (const s of f) I.raise(s, T.str('require'), node);
          return I.join(t).map(s => ({ st: s, v: T.UNDEF }));
        }, c: this.expr(args[0], fd, un) };
        case 'revert': return { k: 'raw', src, fn: (I, st, cx, node) => { I.raise(st, T.str('revert'), node); return []; } };
        case 'keccak256': return { k: 'prim', args: [{ k: 'load', e: this.expr(args[0], fd, un) }], src, fn: (I, st, [v]) => [{ st, v: keccak(v) }] };
        case 'ecrecover': return { k: 'prim', args: args.map(a => this.val(a, fd, un)), src, fn: (I, st, vs) => [{ st, v: T.app('ecrecover', ...vs) }] };
        default: return { k: 'prim', args: args.map(a => ({ k: 'load', e: this.expr(a, fd, un) })), src, fn: (I, st, vs) => [{ st, v: T.app('builtin:' + ex.name, ...vs) }] };
      }
    }
    if (ex.nodeType === 'NewExpression') {
      const tn = ex.typeName;
      if (tn.nodeType === 'ArrayTypeName') {
        const bd = tn.baseType; const sdd = bd.nodeType === 'UserDefinedTypeName' && this.p.byId.get(bd.referencedDeclaration);
        return { k: 'prim', args: [this.val(args[0], fd, un)], src, fn: (I, st, [len]) => { const r = I.alloc(n, 'arr'); S.refElem.set(r, this.dflt(bd)); return [{ st: st.write(T.fld(r, 'length'), len), v: r }]; } };
      }
      if (tn.nodeType === 'ElementaryTypeName') return { k: 'prim', args: [this.val(args[0], fd, un)], src, fn: (I, st, [len]) => T.isNum(len) && len.val === 0n ? [{ st, v: T.EMPTYBYTES }] : (() => { const r = I.alloc(n, 'bytes'); return [{ st: st.write(T.fld(r, 'length'), len), v: r }]; })() };
      return { k: 'prim', args: args.map(a => ({ k: 'load', e: this.expr(a, fd, un) })), src, fn: (I, st, vs) => [{ st, v: I.sym(n, 'newContract') }] };
    }
    if (ex.nodeType === 'MemberAccess') {
      const b = ex.expression, m = ex.memberName;
      if (b.nodeType === 'Identifier' && b.name === 'abi') {
        if (m === 'decode') {
          const tn = ts(n);
          return { k: 'prim', args: [{ k: 'load', e: this.expr(args[0], fd, un) }], src, fn: (I, st, [v]) => [{ st, v: T.mkApp('decode', [T.str(tn.replace(/ memory/g, '').replace(/^struct /, '')), v]) }] };
        }
        if (m === 'encodeCall') {
          const tup = args[1].nodeType === 'TupleExpression' ? args[1].components : [args[1]];
          return { k: 'prim', args: [this.expr(args[0], fd, un)].concat(tup.map(a => ({ k: 'load', e: this.expr(a, fd, un) }))), src, fn: (I, st, vs) => [{ st, v: T.app('encodeCall', ...vs) }] };
        }
        const ls = args.map(a => ({ k: 'load', e: this.expr(a, fd, un) }));
        return { k: 'prim', args: ls, src, fn: (I, st, vs) => [{ st, v: encode(m, vs, args) }] };
      }
      if (/^t_array/.test(ti(b)) || /^t_bytes_storage/.test(ti(b))) {
        if (m === 'push') return { k: 'prim', args: [this.expr(b, fd, un)].concat(args.map(a => ({ k: 'load', e: this.expr(a, fd, un) }))), src, fn: (I, st, [loc, v]) => {
          const len = st.simp(S.read(st.store, T.fld(loc, 'length')));
          let s = st.write(T.idx(loc, len), v || T.ZERO).write(T.fld(loc, 'length'), T.add(len, T.ONE));
          I.emit('push', s, n, { loc, v: v || T.ZERO, pre: st });
          return [{ st: s, v: T.idx(loc, len) }];
        } };
        if (m === 'pop') return { k: 'prim', args: [this.expr(b, fd, un)], src, fn: (I, st, [loc]) => {
          const len = st.simp(S.read(st.store, T.fld(loc, 'length')));
          const s = st.write(T.fld(loc, 'length'), T.sub(len, T.ONE)); I.emit('pop', s, n, { loc, pre: st });
          return [{ st: s, v: T.UNDEF }];
        } };
      }
      if (/^t_address/.test(ti(b)) && ['call', 'delegatecall', 'staticcall', 'transfer', 'send'].includes(m)) {
        return { k: 'prim', args: [this.val(b, fd, un)].concat(args.map(a => ({ k: 'load', e: this.expr(a, fd, un) }))), src, fn: (I, st, vs, cx) => this.lowCall(I, st, m, vs, cx, n) };
      }
      const rd = ex.referencedDeclaration && this.p.byId.get(ex.referencedDeclaration);
      if (rd && rd.nodeType === 'FunctionDefinition') {
        const isLib = rd._c && rd._c.contractKind === 'library';
        const bt = ti(b);
        if (bt.startsWith('t_type') || bt.startsWith('t_super')) { // Base.f / super.f / Lib.f
          let target = rd;
          if (bt.startsWith('t_super')) return { k: 'prim', args: this.args(args, rd, fd, un, n), src, fn: (I, st, vs, cx) => {
            const lin = this.p.linear(cx.contract); const from = lin.findIndex(c => c === fd._c); let t = rd;
            for (let i = from + 1; i < lin.length; i++) { const g = this.p.fnsOf(lin[i]).find(g => g.name === rd.name && g.body && sameParams(g, rd)); if (g) { t = g; break; } }
            return this.invoke(I, t, vs, st, cx, n, {});
          } };
          return { k: 'prim', args: this.args(args, target, fd, un, n), src, fn: (I, st, vs, cx) => this.invoke(I, target, vs, st, cx, n, isLib ? { contract: rd._c } : {}) };
        }
        if (isLib) return { k: 'prim', args: [this.conv(this.expr(b, fd, un), b, rd.parameters.parameters[0])].concat(this.args(args, { parameters: { parameters: rd.parameters.parameters.slice(1) } }, fd, un, n)), src, fn: (I, st, vs, cx) => this.invoke(I, rd, vs, st, cx, n, { contract: rd._c }) };
        // external call on a contract value
        return { k: 'prim', args: [this.val(b, fd, un)].concat(args.map(a => ({ k: 'load', e: this.expr(a, fd, un) }))), src, fn: (I, st, [o, ...vs], cx) => this.extCall(I, st, o, rd, reorder(vs, n, rd), cx, n, b) };
      }
      if (rd && rd.nodeType === 'VariableDeclaration' && rd.stateVariable) // public getter
        return { k: 'prim', args: [this.val(b, fd, un)].concat(args.map(a => this.val(a, fd, un))), src, fn: (I, st, [o, ...vs]) => [{ st, v: vs.reduce((x, y) => T.idx(x, y), T.fld(o, rd.name)) }] };
      if (rd && (rd.nodeType === 'ErrorDefinition' || rd.nodeType === 'EventDefinition')) return { k: 'const', v: T.sym('error:' + rd.name), src };
    }
    if (ex.nodeType === 'Identifier') {
      const rd = this.p.byId.get(ex.referencedDeclaration);
      if (rd && rd.nodeType === 'FunctionDefinition') return { k: 'prim', args: this.args(args, rd, fd, un, n), src, fn: (I, st, vs, cx) => this.invoke(I, this.p.resolve(rd, cx.contract), vs, st, cx, n, {}) };
      if (rd && (rd.nodeType === 'ErrorDefinition' || rd.nodeType === 'EventDefinition')) return { k: 'const', v: T.sym('error:' + rd.name), src };
    }
    return { k: 'prim', args: args.map(a => ({ k: 'load', e: this.expr(a, fd, un) })), src, fn: (I, st, vs) => { I.notes.push('opaque call ' + this.p.loc(src)); I.emit('opaque', st, n, {}); return [{ st, v: I.sym(n, 'opaque') }]; } };
  }
  args(args, rd, fd, un, n) {
    const ps = rd.parameters.parameters;
    if (n.names && n.names.length) return ps.map(p => { const a = args[n.names.indexOf(p.name)]; return this.conv(this.expr(a, fd, un), a, p); });
    return args.map((a, i) => this.conv(this.expr(a, fd, un), a, ps[i]));
  }
  // internal / library / explicit-base call: inline
  invoke(I, fd, vs, st, cx, node, extra) {
    const prim = this.primitive(I, fd, vs, st, cx, node);
    if (prim) return prim;
    if (!fd.body) { I.emit('hook', st, node, { name: fd.name, vs: vs.map(v => S.load(st.store, v)) }); return [{ st: st.addTrace({ key: 'hook' + fd.name + vs.map(v => v.id), kind: 'hook', name: fd.name, vs }), v: I.sym(node, 'unimpl_' + fd.name) }]; }
    if (this.opts.onCall) { const r = this.opts.onCall(I, fd, vs, st, cx, node); if (r) return r; }
    const hook = this.hooks && this.hooks.has(fd.name);
    if (hook) {
      const sv = vs.map(v => S.load(st.store, v));
      I.emit('hook', st, node, { name: fd.name, vs: sv, sender: cx.sender });
      const st2 = st.addTrace({ key: 'hook' + fd.name + sv.map(v => v.id), kind: 'hook', name: fd.name, vs: sv });
      return [{ st: st2, v: I.sym(node, 'hook_' + fd.name) }];
    }
    return I.inline(this.fn(fd), vs, st, cx, Object.assign({ callSrc: node.src }, extra));
  }
  primitive(I, fd, vs, st, cx, node) {
    const c = fd._c && fd._c.name;
    if (c === 'ECDSA' && fd.name === 'recover' && vs.length === 2) return [{ st, v: T.app('recover', vs[0], S.load(st.store, vs[1])) }];
    if (c === 'MessageHashUtils' && fd.name === 'toEthSignedMessageHash' && ts(fd.parameters.parameters[0]) === 'bytes32') return [{ st, v: T.app('ethsigned', vs[0]) }];
    if (this.opts.noLemma) return null;
    if (fd.name === 'verifyThresholdSigned') {
      this.primsUsed.add('verifyThresholdSigned');
      const [a, d, s] = vs.map(v => S.load(st.store, v));
      return [{ st, v: T.mk('tuple', [T.mkApp('tsigned', [a, d, s]), T.app('errmsg', a, d, s)]) }];
    }
    if (fd.name === 'getChainLatestBlockTimestamp' && vs.length === 3) { this.primsUsed.add('getChainLatestBlockTimestamp'); return [{ st, v: T.app('chainLatest', ...vs) }]; }
    return null;
  }
  isSM(node) { const m = /^t_contract\$_(\w+?)_\$(\d+)/.exec(ti(node)); if (!m) return false; const d = this.p.byId.get(Number(m[2])); const sm = this.p.contracts.get('AStateMachine'); return !!(d && sm && d.linearizedBaseContracts.includes(sm.id)); }
  extCall(I, st, o, rd, vs, cx, node, b) {
    vs = vs.map(v => S.load(st.store, v));
    const sm = this.p.contracts.get('AStateMachine');
    if (sm && rd._c.linearizedBaseContracts.includes(sm.id)) return this.smCall(I, st, rd.name, vs, cx, node);
    if (o === cx.self) {
      const cc = cx.root; // the deployed (proxy) contract
      const fd = this.p.resolve(rd, cc);
      if (fd.body) { I.emit('selfcall', st, node, { name: fd.name, vs }); return this.invoke(I, fd, vs, st, Object.assign({}, cx, { contract: cc, sender: cx.self }), node, { contract: cc, sender: cx.self }); }
    }
    I.emit('extcall', st, node, { o, name: rd.name, vs });
    return [{ st: st.addTrace({ key: 'ext' + rd.name + o.id + vs.map(v => v.id), kind: 'ext', name: rd.name, vs }), v: I.sym(node, 'ext_' + rd.name) }];
  }
  smCall(I, st, name, vs, cx, node) {
    const G = T.root('$sm');
    const sm = S.read(st.store, G);
    I.emit('sm', st, node, { name, vs, sm });
    const tr = s => s.addTrace({ key: 'sm' + name + vs.map(v => v.id) + sm.id, kind: 'sm', name, vs, sm });
    switch (name) {
      case 'setState': return [{ st: tr(st.write(G, vs[0])), v: T.UNDEF }];
      case 'getState': return [{ st, v: sm }];
      case 'getParticipants': return [{ st, v: T.app('participants', sm) }];
      case 'getNextToWrite': return [{ st, v: T.app('nextToWrite', sm) }];
      case 'joinChannel': return [{ st: tr(st.write(G, T.app('join', sm, vs[0]))), v: T.app('joinOk', sm, vs[0]) }];
      case 'slashParticipant': return [{ st: tr(st.write(G, T.app('slash', sm, vs[0]))), v: T.mk('tuple', [T.app('slashOk', sm, vs[0]), T.app('slashExit', sm, vs[0])]) }];
      case 'removeParticipant': return [{ st: tr(st.write(G, T.app('remove', sm, vs[0]))), v: T.mk('tuple', [T.app('removeOk', sm, vs[0]), T.app('removeExit', sm, vs[0])]) }];
      case 'stateTransition': {
        const ok = T.app('transOk', sm, vs[0]); const r = [];
        for (const s of st.assume(ok)) r.push({ st: tr(s.write(G, T.app('trans', sm, vs[0]))), v: T.TRUE });
        for (const s of st.assume(T.not(ok))) r.push({ st: tr(s), v: T.FALSE, failed: true });
        return r;
      }
    }
    return [{ st: tr(st.write(G, T.app('sm_' + name, sm, ...vs))), v: I.sym(node, 'sm_' + name) }];
  }
  lowCall(I, st, kind, [target, data], cx, node) {
    if (kind === 'transfer' || kind === 'send') { I.emit('extcall', st, node, { o: target, name: kind, vs: [data] }); return [{ st: st.addTrace({ key: kind + target.id, kind: 'ext', name: kind }), v: I.sym(node, kind) }]; }
    if (data.op === 'app' && data.val === 'encodeCall' && data.args[0].op === 'fn') {
      const fd0 = data.args[0].decl, vs = data.args.slice(1);
      const smc = this.p.contracts.get('AStateMachine');
      if (kind === 'call' && smc && fd0._c.linearizedBaseContracts.includes(smc.id)) {
        return this.smCall(I, st, fd0.name, vs, cx, node).map(r => ({ st: r.st, v: T.mk('tuple', [r.failed ? T.FALSE : T.TRUE, T.app('encode', r.v)]) }));
      }
      if (kind === 'delegatecall') {
        const cc = fd0._c; const fd = this.p.resolve(fd0, cc);
        I.emit('delegate', st, node, { target, name: fd.name, vs });
        const r = I.inline(this.fn(fd), vs, st, cx, { callSrc: node.src, contract: cc }).map(x => ({ st: x.st, v: T.mk('tuple', [T.TRUE, T.app('encode', x.v)]) }));
        r.push({ st: st.addTrace({ key: 'delegatefail', kind: 'delegatefail' }), v: T.mk('tuple', [T.FALSE, I.sym(node, 'revertdata')]) });
        return r;
      }
    }
    const ok = I.sym(node, 'callOk'), res = I.sym(node, 'callResult');
    I.emit('lowcall', st, node, { kind2: kind, target, data, ok, res });
    return [{ st: st.addTrace({ key: kind + target.id + data.id, kind: 'lowcall', target, data, ok }), v: T.mk('tuple', [ok, res]) }];
  }
  // ---- analyse one entry point
  analyse(cname, fd, o = {}) {
    const c = typeof cname === 'string' ? this.p.contracts.get(cname) : cname;
    const I = o.I || this.interp(o);
    I.entry = fd.name;
    const self = T.sym('this'), sender = o.sender || T.sym('msg.sender');
    const st = o.st || new S.State(); if (I.unsigned) st.uns = true;
    const ps = fd.parameters.parameters;
    const args = o.args || ps.map((p, i) => isStorage(p) ? T.root('$' + (p.name || i)) : T.sym('p:' + (p.name || i)));
    const cx = { self, sender, contract: o.contract || c, root: o.root || c, frame: { id: 0, parent: null } };
    const before = I.events.length;
    const rs = I.inline(this.fn(fd), args, st, cx, { callSrc: 'entry:' + fd.name });
    return { I, rs, args, events: I.events.slice(before), fd };
  }
}
function reorder(vs, n, rd) { if (!(n.names && n.names.length)) return vs; return rd.parameters.parameters.map(p => vs[n.names.indexOf(p.name)]); }
const ETHMSG = '\x19Ethereum Signed Message:\n32';
function keccak(v) {
  if (v.op === 'app' && v.val === 'packed2' && v.args[0] === T.str(ETHMSG)) return T.app('ethsigned', v.args[1]);
  return T.app('keccak', v);
}
function encode(m, vs, args) {
  if (m === 'encodePacked') {
    if (vs.length === 1 && /^t_(bytes|string)/.test(ti(args[0]))) return vs[0];
    return T.app('packed' + vs.length, ...vs);
  }
  if (m === 'encode') return T.app('encode', ...vs);
  return T.app('abi:' + m, ...vs);
}
module.exports = { compile, SolFront, Program, ti, ts, isStorage };
