// N04: explores the Node.js socket exhaustively. Runs under node --expose-gc;
// the addon (the source of the repository and n04_app.cpp) and n04_ctl.node
// lie beside --addon. The options, the statistics and the replays are those of
// lib/mc.cpp.
'use strict';
const fs = require('fs'), path = require('path'), net = require('net');
const cp = require('child_process');
const EventEmitter = require('events');

const opt = {jobs: 8, cap: 0, known: [], tmp: '/tmp', property: 'N04', replayDir: '.'};
for (let a = process.argv.slice(2); a.length;) {
  const k = a.shift();
  if (k === '--thorough') opt.thorough = true;
  else if (k === '--known') opt.known.push(a.shift());
  else if (/^--(jobs|cap|shard|limit)$/.test(k)) opt[k.slice(2)] = +a.shift();
  else if (k === '--replay-dir') opt.replayDir = a.shift();
  else opt[k.slice(2)] = a.shift();
}

// ---------------------------------------------------------------- explorer
class Violation extends Error {
  constructor(sig, msg) { super(msg); this.sig = sig; }
}
const tick = () => new Promise(r => setImmediate(r));

class Run {
  constructor(scenario, prefix, shard, shards) {
    Object.assign(this, {scenario, prefix, path: [], sizes: [], steps: [], shard, shards,
      trace: [], transitions: 0, validated: 0, states: []});
  }
  // The first choice of an execution is divided among the workers.
  choose(n, what) {
    const i = this.path.length;
    let v = 0, step = 1;
    if (i === 0) { step = this.shards; v = this.shard; }
    if (i < this.prefix.length) v = this.prefix[i];
    if (v >= n) throw new Skip();
    this.path.push(v); this.sizes.push(n); this.steps.push(step);
    if (what !== undefined) this.trace.push(what + '=' + v);
    return v;
  }
  pick(list, what) {
    const v = list[this.choose(list.length)];
    if (what !== undefined) this.trace.push(what + ' ' + show(v));
    return v;
  }
  note(s) { this.trace.push(s); }
}
class Skip extends Error {}

function show(v) {
  let s = Buffer.isBuffer(v) || v instanceof Uint8Array ? '<' + Buffer.from(v).toString('hex') + '>' : String(v);
  return s.length > 80 ? s.slice(0, 60) + '...(' + s.length + ')' : s;
}

const kind = b => typeof b === 'object' ? Object.prototype.toString.call(b) : String(b);

function hash(s) { // 53 bits
  let a = 0xdeadbeef, b = 0x41c6ce57;
  for (let i = 0; i < s.length; ++i) {
    const c = s.charCodeAt(i);
    a = Math.imul(a ^ c, 2654435761); b = Math.imul(b ^ c, 1597334677);
  }
  a = Math.imul(a ^ (a >>> 16), 2246822507) ^ Math.imul(b ^ (b >>> 13), 3266489909);
  b = Math.imul(b ^ (b >>> 16), 2246822507) ^ Math.imul(a ^ (a >>> 13), 3266489909);
  return 4294967296 * (2097151 & b) + (a >>> 0);
}

// -------------------------------------------------------------- the addon
let connect, ctl;
function load() {
  connect = require(path.join(opt.addon, 'bclSocket.node'));
  ctl = require(path.join(opt.addon, 'n04_ctl.node'));
  ctl.open(path.join(opt.addon, 'bclSocket.node'));
  warm();
}
// Whatever is allocated once, by the first connection, is not a leak.
function warm() {
  const on = [];
  ctl.script('13gc');
  const c = connect(() => 0, (e, f) => { on.push([e, f]); });
  c.startServer();
  for (const [e, f] of [...on]) if (e === 'data') f(Buffer.from('w'));
  for (const [e, f] of [...on]) if (e === 'close') f(false);
}

const digest = b => b.length > 64 ? b.length + ':' + hash(b.toString('latin1')) + ':' + b.toString('hex', 0, 16) : b.toString('hex');

// What has been observed, in order. The addon's records are taken whenever
// JavaScript adds one of its own.
class Log {
  constructor() { this.items = []; this.faults = []; }
  take() {
    const b = ctl.take();
    for (let p = 0; p < b.length;) {
      const k = String.fromCharCode(b.readUInt32LE(p)), c = b.readInt32LE(p + 4), id = b.readInt32LE(p + 8), n = b.readUInt32LE(p + 12);
      this.items.push(k + c + '.' + id + ' ' + digest(b.subarray(p + 16, p + 16 + n)));
      p += 16 + n;
    }
  }
  sent(conn, args) {
    this.take();
    if (args.length !== 1 || typeof args[0] !== 'string')
      this.faults.push('send was called with ' + args.length + ' arguments of ' + [...args].map(x => typeof x));
    else
      this.items.push('S' + conn + ' ' + digest(Buffer.from(args[0], 'utf8')));
  }
}

const TWO = [Buffer.from('A\0B'), Buffer.from('ж€😀')];

// What the server of n04_app.cpp has to do.
class Model {
  constructor(conn, script, out) {
    Object.assign(this, {conn, out, recv: [], closed: []});
    for (const c of script)
      if (c === 'g') for (const m of TWO) out.push('S' + conn + ' ' + digest(m));
      else if (c === 'c') this.closed.push(this.closed.length);
      else this.recv.push({id: this.recv.length, mode: +c, done: false});
  }
  data(bytes, onSend) {
    const d = digest(bytes);
    for (const l of [...this.recv]) {
      const send = m => { this.out.push('S' + this.conn + ' ' + digest(m)); if (onSend) onSend(m); };
      this.out.push('R' + this.conn + '.' + l.id + ' ' + d);
      if (l.mode === 1) send(bytes);
      else if (l.mode === 2) TWO.forEach(send);
      else if (l.mode === 3 && !l.done) {
        l.done = true;
        this.recv.push({id: this.recv.length, mode: 0, done: false});
        this.closed.push(this.closed.length);
      }
      this.out.push('E' + this.conn + '.' + l.id + ' ' + d);
    }
  }
  close(error) {
    for (const id of this.closed) this.out.push('C' + this.conn + '.' + id + (error ? ' 01' : ' 00'));
  }
}

// An execution: connections, what is observed and what is expected.
class World {
  constructor(run) {
    this.run = run; this.log = new Log(); this.want = []; this.conns = []; this.refs = []; this.objects = [];
    this.gcs = 0;
    ctl.reset(); ctl.take();
    this.base = ctl.live();
  }
  // Creates a connection; nothing of it stays in the frame of a caller.
  open(script, how) {
    const conn = this.conns.length, w = this, em = new EventEmitter();
    em.setMaxListeners(0);
    const c = {em, open: true, model: new Model(conn, script, this.want), listeners: {data: [], close: []}};
    this.conns.push(c);
    const send = function() { w.log.sent(conn, arguments); if (c.onSend) c.onSend(arguments[0]); };
    const on = function(event, f) {
      if (arguments.length !== 2 || typeof f !== 'function' || (event !== 'data' && event !== 'close')) {
        w.log.faults.push('a listener was added for ' + show(event));
        return;
      }
      c.listeners[event].push(f);
      em.on(event, (...a) => { w.mayCollect(); f(...a); });
    };
    this.refs.push(new WeakRef(send), new WeakRef(on));
    ctl.script(script);
    this.run.note('open ' + conn + ' script=' + script);
    const object = how ? how(send, on) : connect(send, on);
    object.startServer();
    if (this.keep) this.objects.push(object);
    this.check('open');
  }
  mayCollect() {
    if (this.gcs > 0 && this.run.choose(2)) { --this.gcs; this.run.note('gc'); gc(); }
  }
  data(i, bytes) {
    const c = this.conns[i];
    this.run.note('data ' + i + ' ' + show(bytes));
    c.model.data(Buffer.from(bytes), c.modelSend);
    c.em.emit('data', bytes);
    this.check('data');
  }
  close(i, error) {
    const c = this.conns[i];
    this.run.note('close ' + i + ' ' + error);
    c.model.close(error);
    c.open = false;
    c.em.emit('close', error);
    this.check('close');
  }
  // Compares what has been observed with what is expected.
  check(what) {
    const r = this.run, got = this.log.items, want = this.want;
    this.log.take();
    ++r.transitions;
    if (this.log.faults.length) throw new Violation('call', this.log.faults[0]);
    for (let i = 0; i < got.length || i < want.length; ++i)
      if (got[i] !== want[i])
        throw new Violation('order', what + ': event ' + i + ' is ' + (got[i] || 'nothing') + ', expected ' + (want[i] || 'nothing'));
    r.validated += want.length;
    r.states.push(hash(r.scenario + r.path.join() + '|' + r.transitions));
    r.outcome = hash((r.outcome || '') + want.join(';'));
    got.length = want.length = 0;
  }
  // Everything has been closed: nothing may be left.
  async finish() {
    this.conns = this.conns.map(() => null);
    this.objects.length = 0;
    if (batch && !this.noBatch) { batch.refs.push(...this.refs); return; }
    await released(this.base, this.refs);
    this.check('end');
  }
}

// Collections take long: workers look for leaks after several executions, and
// repeat these one by one if there is a leak.
let batch = null;

async function released(base, refs) {
  let left;
  // V8 itself may keep a function for a while (a compiler thread does).
  for (let i = 0; i < 60; ++i) {
    await tick();
    if (i > 6) await new Promise(r => setTimeout(r, 5 * i));
    gc();
    await tick();
    left = refs.filter(r => r.deref() !== undefined).length;
    if (ctl.live() === base && left === 0) return;
  }
  if (ctl.live() !== base)
    throw new Violation('leak', (ctl.live() - base) + ' blocks of memory are left when all connections are closed and collected');
  throw new Violation('leak', left + ' of the functions given to connect() are kept when all connections are closed and collected');
}

// --------------------------------------------------------------- scenarios
const A = Buffer.from('a\0b'), U = Buffer.from('ж€😀'), T = Buffer.from('plain');

function scripts(alphabet, n) {
  let all = [''], last = [''];
  for (let i = 0; i < n; ++i) {
    last = last.flatMap(s => [...alphabet].map(c => s + c));
    all = all.concat(last);
  }
  return all;
}
const seq = (list, n) => {
  let all = [[]], last = [[]];
  for (let i = 0; i < n; ++i) { last = last.flatMap(s => list.map(c => [...s, c])); all = all.concat(last); }
  return all;
};

// Text of all Unicode scalar values in [from, to).
function text(from, to) {
  let s = '';
  for (let c = from; c < to; ++c) if (c < 0xd800 || c > 0xdfff) s += String.fromCodePoint(c);
  return Buffer.from(s);
}
function bytes(n, seed) {
  const b = Buffer.alloc(n);
  for (let i = 0; i < n; ++i) b[i] = (i * 7 + seed + (i >> 8)) & 255;
  return b;
}
function ascii(n, seed) {
  const b = Buffer.alloc(n);
  for (let i = 0; i < n; ++i) b[i] = (i * 7 + seed + (i >> 8)) & 127;
  return b;
}
// The same bytes as arrays of different kinds.
const KINDS = [
  b => b,
  b => Uint8Array.from(b),                                        // a heap of its own
  b => { const a = new Uint8Array(b.length + 9).fill(0x5a); a.set(b, 5); return a.subarray(5, 5 + b.length); },
  b => { const a = Buffer.alloc(b.length + 3, 0x21); b.copy(a, 1); return a.subarray(1, 1 + b.length); },
  b => { class Own extends Uint8Array {} const a = new Own(b.length); a.set(b); return a; },
];

const SCENARIOS = {
  // Every sequence of operations of createServer, every short history.
  async scripts(run, full) {
    const list = SCENARIOS.scripts.list || (SCENARIOS.scripts.list = scripts('g0123c', full ? 5 : 3));
    const script = run.pick(list);
    const w = new World(run);
    w.open(script);
    for (let n = run.choose(full ? 4 : 3); n > 0; --n) {
      await tick();
      w.data(0, run.pick([A, U]));
    }
    await tick();
    w.close(0, run.choose(2) === 1);
    await w.finish();
  },
  // Received data: every byte, every length, every kind of array.
  async payloads(run, full) {
    const job = run.choose(SCENARIOS.payloads.jobs(full).length);
    const {list, script} = SCENARIOS.payloads.jobs(full)[job];
    const kind = run.choose(KINDS.length);
    run.note('payloads ' + job + ' kind ' + kind);
    const w = new World(run);
    w.open(script);
    for (const make of list) {
      await tick();
      w.data(0, KINDS[kind](make()));
      run.trace.length = 3;
    }
    await tick();
    w.close(0, false);
    await w.finish();
  },
  // Sent messages: every Unicode character.
  async texts(run, full) {
    const CH = 4096, n = 0x110000 / CH;
    const i = run.choose(n + 1);
    run.note('texts ' + i);
    const w = new World(run);
    w.open('1');
    if (i === n) {
      const ms = ['', '\0', '\0\0', 'a\0', '\0a', '\ufeff', '\ufeffa', '\uffff', '\u{10ffff}', '\r\n', 'é'.normalize('NFD'), 'é'.normalize('NFC')];
      for (const a of ms) for (const b of ms) { w.data(0, Buffer.from(a + b)); run.trace.length = 2; }
    } else {
      const b = text(i * CH, (i + 1) * CH);
      w.data(0, b);
      const one = full ? CH : 256; // ... and some of them alone
      for (let c = i * CH; c < i * CH + one; ++c) {
        if (c >= 0xd800 && c <= 0xdfff) continue;
        w.data(0, text(c, c + 1));
        run.trace.length = 2;
      }
    }
    await tick();
    w.close(0, false);
    await w.finish();
  },
  // A collection before each listener and between all events.
  async collect(run, full) {
    const list = SCENARIOS.collect.list || (SCENARIOS.collect.list = scripts('13c', full ? 4 : 3));
    const script = run.pick(list);
    const w = new World(run);
    w.keep = run.choose(2) === 1;
    w.gcs = full ? 4 : 2;
    w.open(script);
    for (let n = run.choose(full ? 4 : 3); n > 0; --n) {
      await tick();
      w.mayCollect();
      w.data(0, A);
    }
    await tick();
    w.mayCollect();
    w.close(0, true);
    await w.finish();
  },
  // Two connections, all interleavings of their events.
  async two(run, full) {
    const ss = full ? ['1c', '3c0', '2', 'gcc0', '0c1'] : ['1c', '3c0', 'gcc2'];
    const pairs = ss.flatMap(a => ss.map(b => [a, b]));
    const pair = run.pick(pairs);
    const w = new World(run);
    let opened = 0;
    for (let n = 0; n < (full ? 7 : 5); ++n) {
      const next = [];
      if (opened < 2) next.push(() => w.open(pair[opened++]));
      for (let i = 0; i < opened; ++i)
        if (w.conns[i].open) {
          next.push(() => w.data(i, i ? U : A));
          next.push(() => w.close(i, i === 1));
        }
      if (opened) next.push(() => gc());
      if (!next.length) break;
      next[run.choose(next.length)]();
      await tick();
    }
    for (let i = 0; i < opened; ++i) if (w.conns[i].open) w.close(i, false);
    await w.finish();
  },
  // What a connection sends is received by another one, at once.
  async pipe(run, full) {
    const script = run.pick(full ? scripts('0123c', 3) : scripts('123c', 2));
    const other = run.pick(full ? scripts('03c', 2) : ['', '0', '3', 'c', '30']);
    const w = new World(run);
    w.open(script);
    w.open(other);
    const from = w.conns[0], to = w.conns[1];
    from.onSend = text => to.em.emit('data', Buffer.from(text));
    from.modelSend = m => to.model.data(m);
    w.gcs = full ? 3 : 1;
    for (let n = 1 + run.choose(2); n > 0; --n) {
      await tick();
      w.data(0, run.pick([A, U]));
    }
    await tick();
    const first = run.choose(2);
    w.close(first, false);
    if (first === 1) from.onSend = from.modelSend = null;
    await tick();
    w.close(1 - first, true);
    await w.finish();
  },
  // Wrong arguments are reported, and change nothing.
  async wrong(run, full) {
    const NONE = {};
    const vals = [NONE, undefined, null, 0, 1.5, 'x', Symbol.iterator, true, {}, [], 10n, /x/, new Date(0)];
    const part = run.choose(4 + (full ? 2 : 0));
    const w = new World(run);
    const typeError = (what, f) => {
      run.note(what);
      let e;
      try { f(); } catch (x) { e = x; }
      if (!(e instanceof TypeError)) throw new Violation('error', what + ': ' + (e ? 'the exception is ' + e : 'no exception'));
      w.check(what);
    };
    const fns = [() => 0, function() {}, class K {}, (() => 0).bind(null), async () => 0];
    if (part === 0 || part === 4) {
      const all = vals.concat(fns);
      for (let round = 0; round < (part ? 20 : 1); ++round)
        for (let i = 0; i < all.length; ++i)
          for (let j = 0; j < all.length; ++j) {
            if (i >= vals.length && j >= vals.length) continue;
            if (all[i] === NONE && all[j] !== NONE) continue;
            const args = [all[i], all[j]].filter(x => x !== NONE);
            typeError('connect(' + i + ',' + j + ')', () => connect(...args));
            if (args.length === 2) typeError('connect(' + i + ',' + j + ',f)', () => connect(...args, fns[0]));
          }
      run.trace.length = 1;
      w.open('1c');
    } else if (part === 1) {
      w.open('1c', (s, o) => connect(s, o, 1, 2));
    } else if (part === 2) {
      w.open('1c', (s, o) => connect.call({}, s, o));
    } else {
      w.open('1c', (s, o) => { // the class itself
        const Class = connectedObject(w).constructor;
        return Class(s, o);
      });
    }
    const c = w.conns[0];
    const bad = vals.concat(fns[0], new ArrayBuffer(4), new Boolean(true), new String('x'), new Proxy({}, {}), [1, 2], {length: 1, 0: 65});
    const views = [Int8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array]
      .map(V => new V(4)).concat(new DataView(new ArrayBuffer(4)), new Proxy(new Uint8Array(4), {}));
    for (const b of bad) {
      if (b !== NONE && typeof b === 'boolean') continue;
      for (const f of c.listeners.close) typeError('close ' + kind(b), () => b === NONE ? f() : f(b));
    }
    for (const b of bad.concat(views, true, false))
      for (const f of c.listeners.data) typeError('data ' + kind(b), () => b === NONE ? f() : f(b));
    for (const b of [{}, null, undefined, 1, c.em])
      typeError('startServer of ' + kind(b), () => Object.getPrototypeOf(connectedObject(w)).startServer.call(b));
    run.trace.length = 1;
    await tick();
    w.data(0, A);
    w.data(0, U);
    w.close(0, true);
    w.noBatch = true;
    await w.finish();
  },
  // Many connections, listeners and messages.
  async many(run, full) {
    const sizes = full ? [[1, 700, 40], [300, 3, 4], [40, 40, 10], [2, 3, 5000], [3000, 1, 2]]
                       : [[1, 300, 20], [100, 3, 4], [20, 20, 10], [2, 3, 1500], [600, 1, 2]];
    const [conns, listeners, msgs] = run.pick(sizes, 'size');
    const order = run.choose(3);
    const late = run.choose(2);
    const w = new World(run);
    const script = '01c0c'.repeat(listeners).slice(0, listeners) + (late ? '3' : '');
    for (let i = 0; i < conns; ++i) w.open(script);
    run.trace.length = 2;
    await tick();
    for (let m = 0; m < msgs; ++m) {
      for (let k = 0; k < conns; ++k) w.data(order === 1 ? conns - 1 - k : k, ascii((m * 3 + k) % 41, m + k));
      if (m % 50 === 0) await tick();
      if (m % 500 === 250) gc();
      run.trace.length = 2;
    }
    for (let k = 0; k < conns; ++k) {
      w.close(order === 2 ? (k * 7 + 3) % conns === k ? k : k : order === 1 ? conns - 1 - k : k, k % 3 === 0);
      if (k % 64 === 13) { await tick(); gc(); }
    }
    await w.finish();
  },
  // The heap of the engine does not grow with what has been done already.
  async growth(run, full) {
    const what = run.choose(3, 'growth of');
    const f = full ? 4 : 1;
    const rounds = [], n = [2000, 40000, 400][what] * f;
    const w = new World(run);
    if (what === 1) w.open('01');
    for (let r = 0; r < 4; ++r) {
      for (let i = 0; i < n; ++i) {
        if (what === 0) {
          const k = w.conns.length;
          w.open('0c1');
          w.data(k, T);
          w.close(k, false);
          w.conns[k].model = w.conns[k].em = w.conns[k].listeners = null;
        } else if (what === 1)
          w.data(0, T);
        else
          for (let a = 0; a < 20; ++a) try { connect(() => 0, a); } catch (e) { /* a TypeError */ }
        run.trace.length = 1;
        if (i % 100 === 0) { await tick(); run.states.length = w.refs.length = 0; }
      }
      if (what === 0) w.conns.fill(null);
      for (let i = 0; i < 4; ++i) { await tick(); gc(); }
      rounds.push(process.memoryUsage().heapUsed);
    }
    run.states.length = w.refs.length = 0;
    if (rounds[3] - rounds[1] > 1200000 * f && rounds[2] - rounds[1] > 500000 * f)
      throw new Violation('growth', 'the heap of the engine grows: ' + rounds.map(x => x >> 10) + ' KiB after rounds of ' + n);
    if (what === 1) w.close(0, false);
    await w.finish();
  },
  // The usage of the documentation: net.createServer.
  async tcp(run, full) {
    const cfg = [];
    for (const script of ['1c', '0c1c', '3c1', 'g1cc'])
      for (const parts of seq([A, U, Buffer.from('x'.repeat(200000) + '\0y')], full ? 3 : 2))
        for (const how of ['end', 'reset']) cfg.push({script, parts, how});
    const {script, parts, how} = cfg[run.choose(cfg.length)];
    run.note('tcp ' + script + ' ' + parts.map(p => p.length) + ' ' + how);
    const w = new World(run);
    await tcp(w, script, parts, how);
    await w.finish();
  },
};

function connectedObject(w) {
  if (!connectedObject.object) {
    // One connection without a server, for the life of the process.
    const live = ctl.live();
    connectedObject.object = connect(() => 0, () => 0);
    w.base += ctl.live() - live;
  }
  return connectedObject.object;
}

function tcp(w, script, parts, how) {
  const all = Buffer.concat(parts), greet = script.startsWith('g') ? Buffer.concat(TWO) : Buffer.alloc(0);
  const expect = Buffer.concat([greet, all]);
  return new Promise((resolve, reject) => {
    let client, got = [], size = 0, timer, server;
    const fail = (sig, m) => { clearTimeout(timer); if (client) client.destroy(); server.close(); reject(new Violation(sig, m)); };
    timer = setTimeout(() => fail('hang', 'the exchange over TCP does not end: ' + size + ' of ' + expect.length + ' bytes are back'), 60000);
    server = net.createServer(socket => {
      socket.on('error', () => 0);
      ctl.script(script);
      const object = connect(data => { socket.write(data); }, (event, f) => { socket.on(event, f); });
      object.startServer();
      socket.on('close', () => setImmediate(() => {
        server.close();
        clearTimeout(timer);
        // Records: what each listener has got altogether.
        const b = ctl.take(), by = new Map();
        for (let p = 0; p < b.length;) {
          const k = String.fromCharCode(b.readUInt32LE(p)), id = b.readInt32LE(p + 8), n = b.readUInt32LE(p + 12);
          if (k !== 'E') {
            if (!by.has(k + id)) by.set(k + id, []);
            by.get(k + id).push(b.subarray(p + 16, p + 16 + n));
          }
          p += 16 + n;
        }
        const back = Buffer.concat(got);
        if (!back.equals(expect)) return fail('tcp', 'the client has got ' + show(back) + ' instead of ' + show(expect));
        const first = [...script].filter(c => c !== 'g' && c !== 'c');
        let rc = first.length, cc = [...script].filter(c => c === 'c').length;
        const late = first.includes('3') && all.length > 0;
        for (let i = 0; i < rc; ++i) {
          const d = Buffer.concat(by.get('R' + i) || []);
          if (!d.equals(all)) return fail('tcp', 'listener ' + i + ' has got ' + show(d) + ' instead of ' + show(all));
          by.delete('R' + i);
        }
        if (late) { by.delete('R' + rc); ++cc; }
        for (let i = 0; i < cc; ++i) {
          const d = Buffer.concat(by.get('C' + i) || []).toString('hex');
          if (d !== (how === 'reset' ? '01' : '00')) return fail('tcp', 'closed listener ' + i + ' has got "' + d + '"');
          by.delete('C' + i);
        }
        if (by.size) return fail('tcp', 'unexpected events ' + [...by.keys()]);
        w.run.validated += 1;
        w.run.transitions += parts.length + 2;
        w.run.outcome = hash(script + back.length + how);
        resolve();
      }));
    });
    server.on('error', e => fail('tcp', String(e)));
    server.listen(0, '127.0.0.1', () => {
      client = net.connect(server.address().port, '127.0.0.1');
      client.on('error', () => 0);
      const end = () => { if (how === 'reset') client.resetAndDestroy(); else client.end(); };
      const done = () => { if (size >= expect.length) setImmediate(end); };
      client.on('data', d => { got.push(d); size += d.length; done(); });
      client.on('connect', () => {
        let i = 0;
        const next = () => { if (i < parts.length) client.write(parts[i++], () => setImmediate(next)); };
        next();
        if (!expect.length) setTimeout(done, 1);
      });
    });
  });
}

SCENARIOS.payloads.jobs = full => {
  const memo = SCENARIOS.payloads.memo;
  if (memo) return memo;
  const jobs = [];
  // All bytes, alone and inside text; all pairs of bytes of interest.
  jobs.push({script: '00', list: [...Array(256).keys()].map(i => () => Buffer.from([i]))});
  jobs.push({script: '00', list: [...Array(256).keys()].map(i => () => Buffer.from([97, i, 98]))});
  const some = [0, 1, 9, 10, 13, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xe2, 0xed, 0xf0, 0xf4, 0xfe, 0xff, 97];
  if (full)
    for (let i = 0; i < 256; ++i)
      jobs.push({script: '0', list: [...Array(256).keys()].map(j => () => Buffer.from([i, j]))});
  else
    for (const i of some) jobs.push({script: '0', list: some.map(j => () => Buffer.from([i, j]))});
  jobs.push({script: '0', list: some.flatMap(i => some.flatMap(j => some.map(k => () => Buffer.from([i, j, k]))))});
  // All lengths; what is received is echoed where it is text.
  for (let from = 0; from < (full ? 5200 : 1300); from += 100) {
    const ls = [...Array(100).keys()].map(i => from + i);
    jobs.push({script: '01', list: ls.map(n => () => ascii(n, n))});
    jobs.push({script: '0', list: ls.map(n => () => bytes(n, n))});
  }
  for (let k = 11; k <= (full ? 24 : 20); ++k)
    jobs.push({script: k <= 20 ? '01' : '1', list: [-1, 0, 1].map(d => () => ascii((1 << k) + d, k))});
  for (let k = 11; k <= 20; ++k)
    jobs.push({script: '0', list: [-1, 0, 1].map(d => () => bytes((1 << k) + d, k))});
  return SCENARIOS.payloads.memo = jobs;
};

// ------------------------------------------------------------------ running
async function execute(name, prefix, shard, shards) {
  const run = new Run(name, prefix, shard, shards);
  try {
    await SCENARIOS[name](run, opt.thorough);
  } catch (e) {
    if (e instanceof Skip) run.skip = true;
    else if (e instanceof Violation) run.bad = e;
    else run.bad = new Violation('exception', 'unexpected exception: ' + (e && e.stack || e));
  }
  return run;
}

function transcript(run) {
  return run.trace.join('\n') + '\n';
}

async function worker() {
  load();
  for (let i = 0; i < 4; ++i) { await tick(); gc(); }
  const res = {executions: 0, transitions: 0, validated: 0, states: [], outcomes: [], capped: false, scenarios: [], samples: []};
  const states = new Set(), outcomes = new Set();
  const cur = path.join(opt.tmp, 'node-worker' + opt.shard + '.cur');
  const t0 = Date.now();
  const fd = fs.openSync(cur, 'w');
  const mark = (name, prefix) => {
    const s = JSON.stringify({name, prefix, t: Date.now()});
    fs.writeSync(fd, s.padEnd(4000), 0);
  };
  for (const name of Object.keys(SCENARIOS)) {
    if (opt.only && !name.includes(opt.only)) continue;
    let prefix = [opt.shard];
    const fail = (choices, bad) => {
      fs.writeFileSync(path.join(opt.tmp, 'node-worker' + opt.shard + '.bad'),
        JSON.stringify({name, choices, sig: bad.sig, msg: bad.message}));
      process.exit(3);
    };
    const settle = async () => {
      const b = batch;
      batch = null;
      try { await released(b.base, b.refs); } catch (e) {
        if (!(e instanceof Violation)) throw e;
        for (const choices of b.runs) {
          mark(name, choices);
          const run = await execute(name, choices, 0, 1);
          if (run.bad) fail(choices, run.bad);
        }
        fail(b.runs[0], e);
      }
    };
    for (;;) {
      if (opt.cap && Date.now() - t0 > opt.cap * 1000) { res.capped = true; break; }
      mark(name, prefix);
      if (!batch && name !== 'wrong') batch = {base: ctl.live(), refs: [], runs: []};
      const run = await execute(name, prefix, opt.shard, opt.jobs);
      if (run.skip) break;
      if (run.bad) fail(run.path, run.bad);
      if (batch && batch.runs.push(run.path) >= 30) await settle();
      ++res.executions; res.transitions += run.transitions; res.validated += run.validated;
      for (const s of run.states) states.add(s);
      if (run.outcome !== undefined) outcomes.add(run.outcome);
      if (prefix.length === 1 && prefix[0] === 0)
        res.samples.push(name + ':' + transcript(run).slice(0, 600).replace(/\n/g, ';'));
      let i = run.path.length - 1;
      while (i >= 0 && run.path[i] + run.steps[i] >= run.sizes[i]) --i;
      if (i < 0) break;
      prefix = run.path.slice(0, i + 1);
      prefix[i] += run.steps[i];
    }
    if (batch) await settle();
  }
  mark('', []);
  res.states = [...states]; res.outcomes = [...outcomes];
  fs.writeFileSync(path.join(opt.tmp, 'node-worker' + opt.shard + '.json'), JSON.stringify(res));
  process.exit(0);
}

function spawn(args, log) {
  const fd = fs.openSync(log, 'w');
  const p = cp.spawn(process.execPath, ['--expose-gc', '--no-concurrent-recompilation', '--no-maglev', '--single-threaded-gc', __filename, ...args], {stdio: ['ignore', fd, fd]});
  fs.closeSync(fd);
  return p;
}
const common = () => ['--addon', opt.addon, '--tmp', opt.tmp, '--property', opt.property]
  .concat(opt.thorough ? ['--thorough'] : []);

// One execution in a process of its own.
async function isolated(name, choices) {
  const log = path.join(opt.tmp, 'node-replay.log'), out = path.join(opt.tmp, 'node-replay.json');
  fs.rmSync(out, {force: true});
  const p = spawn([...common(), '--one', JSON.stringify({name, choices}), '--out', out], log);
  const limit = opt.thorough ? 600 : 240;
  const timer = setTimeout(() => { p.hang = true; p.kill('SIGKILL'); }, limit * 1000);
  const [code, signal] = await new Promise(r => p.on('close', (...a) => r(a)));
  clearTimeout(timer);
  let text = fs.readFileSync(log, 'utf8').slice(0, 20000);
  if (p.hang) return {bad: true, sig: 'hang', msg: 'the execution does not end', text};
  if (!fs.existsSync(out)) return {bad: true, sig: 'crash', msg: 'the process was ended by ' + (signal || 'exit status ' + code), text};
  const r = JSON.parse(fs.readFileSync(out, 'utf8'));
  return {...r, text: r.text + text};
}

async function one() {
  load();
  for (let i = 0; i < 4; ++i) { await tick(); gc(); }
  const {name, choices} = JSON.parse(opt.one);
  const run = await execute(name, choices, 0, 1);
  fs.writeFileSync(opt.out, JSON.stringify({bad: !!run.bad, sig: run.bad && run.bad.sig, msg: run.bad && run.bad.message, text: transcript(run)}));
  process.exit(0);
}

async function replay() {
  const lines = fs.readFileSync(opt.replay, 'utf8').split('\n');
  const get = k => (lines.find(l => l.startsWith(k)) || '').slice(k.length).trim();
  if (lines.includes('tier: thorough')) opt.thorough = true;
  if (!SCENARIOS[get('scenario:')]) { console.error('no such scenario'); process.exit(2); }
  const r = await isolated(get('scenario:'), get('choices:').split(' ').filter(x => x).map(Number));
  process.stdout.write(r.text);
  if (r.bad) console.log('VIOLATION property=' + opt.property + ' replay=' + opt.replay + '\n  [' + r.sig + '] ' + r.msg);
  else console.log('replay: the property held');
  process.exit(r.bad ? 1 : 0);
}

async function main() {
  const t0 = Date.now();
  const names = Object.keys(SCENARIOS).filter(n => !opt.only || n.includes(opt.only));
  if (!names.length) { console.error('no scenario'); process.exit(2); }
  const f = (j, ext) => path.join(opt.tmp, 'node-worker' + j + '.' + ext);
  const procs = [];
  let failed = -1, hang = false, left = opt.jobs;
  await new Promise(resolve => {
    for (let j = 0; j < opt.jobs; ++j) {
      const p = spawn([...common(), '--shard', j, '--jobs', opt.jobs, '--cap', opt.cap].concat(opt.only ? ['--only', opt.only] : []), f(j, 'log'));
      procs.push(p);
      p.on('close', (code, signal) => {
        p.code = code; p.signal = signal;
        --left;
        if (code !== 0 && failed < 0) { failed = j; resolve(); }
        if (!left) resolve();
      });
    }
    const watch = setInterval(() => {
      if (failed >= 0 || !left) { clearInterval(watch); return; }
      for (let j = 0; j < opt.jobs; ++j) {
        if (procs[j].code !== undefined) continue;
        try {
          const m = JSON.parse(fs.readFileSync(f(j, 'cur'), 'utf8'));
          if (m.name && Date.now() - m.t > (opt.thorough ? 600 : 240) * 1000) { failed = j; hang = true; resolve(); }
        } catch (e) { /* being written */ }
      }
    }, 1000);
    watch.unref();
  });
  let exit = 0;
  const result = {executions: 0, transitions: 0, validated: 0, states: 0, outcomes: 0, discards: 0, pruned: 0, known_hits: 0, capped: false};
  if (failed >= 0) {
    for (const p of procs) p.kill('SIGKILL');
    const p = procs[failed];
    let bad;
    if (fs.existsSync(f(failed, 'bad'))) bad = JSON.parse(fs.readFileSync(f(failed, 'bad'), 'utf8'));
    else {
      let m = {};
      try { m = JSON.parse(fs.readFileSync(f(failed, 'cur'), 'utf8')); } catch (e) { /* none */ }
      bad = {name: m.name, choices: m.prefix, sig: hang ? 'hang' : 'crash',
        msg: hang ? 'the execution does not end' : 'the process was ended by ' + (p.signal || 'exit status ' + p.code)};
    }
    const log = fs.readFileSync(f(failed, 'log'), 'utf8');
    if (!bad.name || p.signal === 'SIGKILL') {
      console.error('internal error: a worker was ended by ' + (p.signal || p.code) + '\n' + log.slice(0, 6000));
      process.exit(2);
    }
    const a = await isolated(bad.name, bad.choices), b = await isolated(bad.name, bad.choices);
    if (hang && !a.bad && !b.bad) { console.error('an execution of ' + bad.name + ' was slow, but ends'); process.exit(2); }
    fs.mkdirSync(opt.replayDir, {recursive: true});
    const where = path.join(opt.replayDir, opt.property + '-' + bad.name + '.replay');
    const r = a.bad ? a : bad;
    fs.writeFileSync(where, 'property: ' + opt.property + '\nscenario: ' + bad.name + '\ntier: ' + (opt.thorough ? 'thorough' : 'quick') +
      '\nchoices: ' + bad.choices.join(' ') + '\nsignature: ' + r.sig + '\nmessage: ' + r.msg +
      '\nreproduced: ' + ((a.bad ? 1 : 0) + (b.bad ? 1 : 0)) + ' of 2 isolated replays\ntranscript:\n' + a.text + (a.bad ? '' : '\nworker log:\n' + log.slice(0, 20000)) + '\n');
    console.log(bad.name + ': [' + r.sig + '] ' + r.msg + '\n' + (a.bad ? a.text : log).slice(0, 6000));
    console.log('VIOLATION property=' + opt.property + ' replay=' + where);
    exit = 1;
  } else {
    const states = new Set(), outcomes = new Set();
    result.samples = [];
    for (let j = 0; j < opt.jobs; ++j) {
      const r = JSON.parse(fs.readFileSync(f(j, 'json'), 'utf8'));
      for (const k of ['executions', 'transitions', 'validated']) result[k] += r[k];
      for (const s of r.states) states.add(s);
      for (const s of r.outcomes) outcomes.add(s);
      result.capped = result.capped || r.capped;
      result.samples.push(...r.samples);
    }
    result.states = states.size; result.outcomes = outcomes.size;
  }
  result.samples = result.samples || [];
  result.scenarios = names;
  result.wall_s = (Date.now() - t0) / 1000;
  result.violations = exit;
  if (opt.out) fs.writeFileSync(opt.out, JSON.stringify(result));
  console.log(opt.property + ': scenarios=' + names.length + ' executions=' + result.executions + ' transitions=' + result.transitions +
    ' states=' + result.states + ' outcomes=' + result.outcomes + (result.capped ? ' CAPPED' : '') + ' wall=' + result.wall_s.toFixed(1) + 's');
  process.exit(exit);
}

(opt.one ? one : opt.shard !== undefined ? worker : opt.replay ? replay : main)();
