'use strict'
// Calls the Node binding with the corpus and with everything a JavaScript program can get wrong.
// usage: node --expose-gc driver.js DIR-WITH-INDEX.JS CORPUS TIER SEED PHASE
const fs = require('fs'), path = require('path')
const [bindir, dir, tier, seed0, phase] = process.argv.slice(2)
const kzg = require(path.join(bindir, 'index.js'))
const thorough = tier === 'thorough'
const data = fs.readFileSync(path.join(dir, 'data.bin'))
const lines = fs.readFileSync(path.join(dir, 'index.txt'), 'utf8').split('\n').filter(Boolean)
const counts = new Map()
const count = (k, n = 1) => counts.set(k, (counts.get(k) || 0) + n)
let bad = 0
const say = s => fs.writeSync(1, s + '\n')
const complain = s => { if (bad++ < 5) say('BAD ' + s.replace(/\n/g, ' ')) }
let state = BigInt(seed0) * 0x9e3779b97f4a7c15n + 12345n
const rnd = n => { state = (state * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return Number((state >> 33n) % BigInt(n)) }

// the bytes as one of the things that are a Uint8Array in JavaScript
function dress(b, style) {
  const n = b.length
  switch (style % 6) {
    case 0: return Uint8Array.from(b)
    case 1: return Buffer.from(b)
    case 2: { const big = new Uint8Array(n + 13).fill(0xa5); big.set(b, 5); return big.subarray(5, 5 + n) }
    case 3: { const ab = new ArrayBuffer(n + 64); const u = new Uint8Array(ab, 33, n); u.set(b); return u }
    case 4: { const ab = new ArrayBuffer(n, { maxByteLength: n + 100 }); const u = new Uint8Array(ab, 0, n); u.set(b); return u }
    default: { class Sub extends Uint8Array {} ; return Sub.from(b) }
  }
}
const bytes = t => { const [o, n] = t.split(':').map(Number); return data.subarray(o, o + n) }
const item = (t, s) => dress(bytes(t), s)
const items = (t, s) => t === '-' ? [] : t.split(',').map((x, i) => item(x, s < 0 ? i : s))
const words = t => t === '-' ? [] : t.split(',').map(BigInt)
const eq = (a, b) => a instanceof Uint8Array && a.length === b.length && Buffer.compare(a, b) === 0
const flat = (a, want, n, len) => Array.isArray(a) && a.length === n && a.every((x, i) => eq(x, want.subarray(i * len, i * len + len)))
const describe = o => o instanceof Uint8Array ? 'an array of ' + o.length : o && o.cells ? 'cells and proofs' : Array.isArray(o) ? 'a list of ' + o.length : String(o)

// null when `got` is what `want` asks for; `kind` is the method's result type
function judge(want, got, cellsOnly) {
  if (want.startsWith('com=')) return eq(got, bytes(want.slice(4))) ? null : describe(got)
  if (want.startsWith('data=')) {
    const [c, p] = want.slice(5).split(',').map(bytes)
    if (cellsOnly) return flat(got, c, 128, 2048) ? null : describe(got)
    if (!got || typeof got !== 'object') return describe(got)
    if (!flat(got.cells, c, 128, 2048)) return 'other cells'
    if (!flat(got.proofs, p, 128, 48)) return 'other proofs'
    return null
  }
  const w = want === 'valid' ? true : want === 'invalid' ? false : want
  return got === w ? null : describe(got)
}
const failed = e => e instanceof Error ? 'error' : 'a thrown ' + describe(e)
const sync = f => { try { return f() } catch (e) { return failed(e) } }
const later = async f => {
  let p
  try { p = f() } catch (e) { return failed(e) } // refused before it started
  if (!(p instanceof Promise)) return 'no promise but ' + describe(p)
  try { return await p } catch (e) { return failed(e) }
}
const snapshot = args => args.map(a => Array.isArray(a) ? a.map(x => x instanceof Uint8Array ? Buffer.from(x) : x) : Buffer.from(a))
const unchanged = (args, snap) => args.every((a, i) => Array.isArray(a) ? a.length === snap[i].length && a.every((x, j) => x instanceof Uint8Array ? eq(x, snap[i][j]) : x === snap[i][j]) : eq(a, snap[i]))
// the whole buffer behind a view stays as it was
const rest = args => args.flat().filter(x => x instanceof Uint8Array && x.buffer.byteLength < 400000).map(x => [x.buffer, Buffer.from(new Uint8Array(x.buffer))])
const restSame = r => r.every(([b, c]) => Buffer.compare(new Uint8Array(b), c) === 0)

function request(l, style) {
  const t = l.split(' # ')[0].split(' '), what = (l.split(' # ')[1] || '') + ', request ' + t[0]
  const op = t[1], want = t[2]
  const args = op === 'commit' || op === 'compute' ? [item(t[3], style)]
    : op === 'recover' ? [words(t[3]), items(t[4], style)]
    : [items(t[3], style), words(t[4]), items(t[5], style), items(t[6], style)]
  return { op, want, what, args }
}
const NAMES = { commit: 'blobToKzgCommitment', compute: 'computeCellsAndKzgProofs', cells: 'computeCells', recover: 'recoverCellsAndKzgProofs', verify: 'verifyCellKzgProofBatch' }
const asyncName = n => 'async' + n[0].toUpperCase() + n.slice(1)
const short = w => w.includes('=') ? w.slice(0, w.indexOf('=')) : w

// results are values: later calls leave them alone
const kept = []
function keepSome(q, got, op) {
  if (typeof got === 'object' && !judge(q.want, got, op === 'cells')) kept.push([q.want, got, op, q.what])
  if (kept.length > 40) recheck(kept.splice(0, 20))
}
function recheck(list) {
  for (const [want, got, op, what] of list) {
    count('results looked at again')
    const e = judge(want, got, op === 'cells')
    if (e) complain(`the result of ${op} (${what}) became ${e} while other calls ran`)
  }
}

function runSync(ctx, l, style, who) {
  const q = request(l, style), snap = snapshot(q.args), r = style % 3 === 2 ? rest(q.args) : []
  for (const op of q.op === 'compute' && style % 4 === 0 ? ['cells'] : [q.op]) {
    const got = sync(() => ctx[NAMES[op]](...q.args))
    keepSome(q, got, op)
    count(who + ' ' + op + ' -> ' + short(q.want))
    const e = judge(q.want, got, op === 'cells')
    if (e) complain(`${who}: ${NAMES[op]} (${q.what}) gave ${e} where the library gives ${short(q.want)}`)
  }
  if (!unchanged(q.args, snap) || !restSame(r)) complain(`${who}: ${NAMES[q.op]} (${q.what}) changed its arguments`)
}
async function runAsync(ctx, l, style, who) {
  const q = request(l, style), snap = snapshot(q.args)
  const op = q.op === 'compute' && style % 4 === 1 ? 'cells' : q.op
  const got = await later(() => ctx[asyncName(NAMES[op])](...q.args))
  keepSome(q, got, op)
  count(who + ' ' + op + ' -> ' + short(q.want))
  const e = judge(q.want, got, op === 'cells')
  if (e) complain(`${who}: ${asyncName(NAMES[op])} (${q.what}) gave ${e} where the library gives ${short(q.want)}`)
  if (!unchanged(q.args, snap)) complain(`${who}: ${asyncName(NAMES[op])} (${q.what}) changed its arguments`)
}

const find = f => lines.find(l => f(l.split(' # ')[0].split(' ')))
const com = find(t => t[1] === 'commit' && t[2].startsWith('com')), cmp = find(t => t[1] === 'compute' && t[2].startsWith('data'))
const ver = find(t => t[1] === 'verify' && t[2] === 'valid' && t[4].split(',').length > 3), rec = find(t => t[1] === 'recover' && t[2].startsWith('data') && t[3].split(',').length < 128) || find(t => t[1] === 'recover' && t[2].startsWith('data'))

async function both(ctx, name, args, want, label) {
  for (const m of [name, asyncName(name)]) {
    const got = m === name ? sync(() => ctx[m](...args())) : await later(() => ctx[m](...args()))
    count('hostile arguments')
    const e = judge(want, got, name === 'computeCells')
    if (e) complain(`${m} with ${label} gave ${e} instead of ${short(want)}`)
  }
}

const phases = {
  // every request, synchronously and asynchronously, on shared contexts
  async corpus() {
    const ctxs = [kzg.DasContextJs.create({ usePrecomp: false, numThreads: 1 }), kzg.DasContextJs.create({ usePrecomp: false, numThreads: 3 }), kzg.DasContextJs.create({ usePrecomp: false, numThreads: 0 })]
    const w = new Set()
    let i = 0
    for (const l of lines) {
      const style = i++
      if (style % 2 === 0) runSync(ctxs[style % 3], l, style, 'synchronous')
      if (style % 2 === 1 || style % 8 === 0) {
        const p = runAsync(ctxs[(style >> 1) % 3], l, style, 'asynchronous').finally(() => w.delete(p))
        w.add(p)
        while (w.size >= 16) await Promise.race(w)
      }
      if (style % 16 === 5) global.gc()
    }
    await Promise.all(w)
    const want = { BYTES_PER_COMMITMENT: 48, BYTES_PER_PROOF: 48, BYTES_PER_FIELD_ELEMENT: 32, BYTES_PER_BLOB: 131072, MAX_NUM_COLUMNS: 128, BYTES_PER_CELL: 2048 }
    for (const k in want) if (kzg[k] !== want[k]) complain('the constant ' + k + ' is ' + kzg[k])
  },

  async hostile() {
    const ctx = kzg.DasContextJs.create({ usePrecomp: false, numThreads: 2 })
    const q = { com: request(com, 0), cmp: request(cmp, 0), ver: request(ver, 0), rec: request(rec, 0) }
    const B = NAMES.commit, C = NAMES.compute, K = NAMES.cells, V = NAMES.verify, R = NAMES.recover
    // indices which are no column index: never a different index, never an abort
    const indices = [-1n, -0x80n, -(1n << 63n), -(1n << 64n), -(1n << 64n) - 5n, 128n, 255n, 1n << 32n, (1n << 63n), (1n << 64n) - 1n, 1n << 64n, (1n << 64n) + 5n, (1n << 65n),
      (1n << 127n) + 3n, (1n << 128n), (1n << 128n) + 1n, -(1n << 128n), (1n << 4000n) + 2n, -(1n << 200n) - 1n]
    const own = [w => -w, w => w + (1n << 64n), w => w + (1n << 128n), w => -w - (1n << 64n), w => w + (7n << 64n), w => w + (1n << 256n)]
    for (let round = 0; round < (thorough ? 12 : 2); round++) {
      for (const x of indices.concat(own)) {
        const at = rnd(q.ver.args[1].length), put = (a, i) => { const w = a.slice(); w[i] = typeof x === 'function' ? x(w[i]) : x; return w }
        const vw = put(q.ver.args[1], at), ra = rnd(q.rec.args[0].length), rw = put(q.rec.args[0], ra)
        if (vw[at] !== q.ver.args[1][at]) await both(ctx, V, () => [q.ver.args[0], vw, q.ver.args[2], q.ver.args[3]], 'error', 'the index ' + (vw[at] > 1n << 300n ? 'beyond 2^300' : vw[at]) + ' for ' + q.ver.args[1][at])
        if (rw[ra] !== q.rec.args[0][ra]) await both(ctx, R, () => [rw, q.rec.args[1]], 'error', 'the index ' + (rw[ra] > 1n << 300n ? 'beyond 2^300' : rw[ra]) + ' for ' + q.rec.args[0][ra])
      }
    }
    // things that are no blob, list, or index
    const thrower = new Proxy([], { get(t, k) { if (k === 'length') return 2; throw new Error('trap') } })
    const junk = [undefined, null, 0, 1.5, NaN, '', 'x'.repeat(131072), true, 5n, Symbol('s'), {}, [], () => 1, new Date(), new Map(), new ArrayBuffer(131072), new DataView(new ArrayBuffer(131072)),
      new Uint16Array(65536), new Float64Array(16384), new BigUint64Array(16384), new Int8Array(131072), new Array(131072).fill(0), { length: 131072 }, new Uint8Array(0), new Uint8Array(131071), new Uint8Array(131073), new Uint8Array(4096 * 33),
      Buffer.alloc(0), thrower, new Proxy(new Uint8Array(131072), {}), Object.create(Uint8Array.prototype)]
    for (const j of junk) for (const m of [B, C, K]) await both(ctx, m, () => [j], 'error', 'the argument ' + label(j))
    for (const j of junk) {
      for (let k = 0; k < 4; k++) await both(ctx, V, () => { const a = q.ver.args.slice(); a[k] = j; return a }, 'error', `${label(j)} as argument ${k}`)
      for (let k = 0; k < 2; k++) await both(ctx, R, () => { const a = q.rec.args.slice(); a[k] = j; return a }, 'error', `${label(j)} as argument ${k}`)
      for (let k = 0; k < 4; k++) if (!(k === 1 && j === 5n)) await both(ctx, V, () => { const a = q.ver.args.map(x => x.slice()); a[k][rnd(a[k].length)] = j; return a }, 'error', `${label(j)} inside argument ${k}`)
      for (let k = 0; k < 2; k++) if (!(k === 0 && j === 5n)) await both(ctx, R, () => { const a = q.rec.args.map(x => x.slice()); a[k][rnd(a[k].length)] = j; return a }, 'error', `${label(j)} inside argument ${k}`)
    }
    // too few arguments, sparse lists, detached buffers, a wrong receiver
    for (let n = 0; n < 4; n++) await both(ctx, V, () => q.ver.args.slice(0, n), 'error', n + ' arguments')
    for (let n = 0; n < 2; n++) await both(ctx, R, () => q.rec.args.slice(0, n), 'error', n + ' arguments')
    for (const m of [B, C, K]) await both(ctx, m, () => [], 'error', 'no argument')
    await both(ctx, V, () => [new Array(5), new Array(5), new Array(5), new Array(5)], 'error', 'sparse lists')
    const gone = () => { const u = Uint8Array.from(q.com.args[0]); structuredClone(u, { transfer: [u.buffer] }); return u }
    for (const m of [B, C, K]) await both(ctx, m, () => [gone()], 'error', 'a detached buffer')
    for (const m of [B, C, K, V, R]) for (const n of [m, asyncName(m)]) for (const self of [{}, null, undefined, 5, Object.create(kzg.DasContextJs.prototype)]) {
      const got = await later(() => kzg.DasContextJs.prototype[n].apply(self, m === V ? q.ver.args : m === R ? q.rec.args : q.com.args))
      count('wrong receivers')
      if (got !== 'error' && !String(got).startsWith('a thrown')) complain(`${n} on a wrong receiver gave ${describe(got)}`)
    }
    for (const o of [undefined, null, {}, { usePrecomp: 1, numThreads: 1 }, { usePrecomp: false }, { usePrecomp: false, numThreads: 'x' }, { usePrecomp: false, numThreads: {} }]) {
      count('hostile options')
      const got = sync(() => kzg.DasContextJs.create(o))
      if (got !== 'error' && !(got instanceof kzg.DasContextJs)) complain('odd options gave ' + describe(got))
    }
    // accepted ways of writing the same things
    await both(ctx, B, () => [q.com.args[0], 'extra', 7], q.com.want, 'extra arguments')
    const sab = new Uint8Array(new SharedArrayBuffer(131072)); sab.set(q.com.args[0])
    const got = sync(() => ctx[B](sab))
    count('hostile arguments')
    if (got !== 'error' && judge(q.com.want, got)) complain('a shared buffer gave ' + describe(got))
    // a list whose elements change it while it is read
    const tricky = q.rec.args[1].slice(), real = tricky[0]
    Object.defineProperty(tricky, 0, { get() { tricky.length = 3; return real }, configurable: true })
    const t1 = sync(() => ctx[R](q.rec.args[0], tricky))
    count('hostile arguments')
    if (t1 !== 'error') complain('a list that shrinks while it is read gave ' + describe(t1))
    for (const [m, k] of [[B, 'com'], [C, 'cmp'], [V, 'ver'], [R, 'rec']]) await both(ctx, m, () => q[k].args, q[k].want, 'genuine arguments afterwards')
  },

  // contexts, arguments and results that become garbage while calls run
  async garbage() {
    const q = { com: request(com, 0), cmp: request(cmp, 0), ver: request(ver, 0), rec: request(rec, 0) }
    const stop = setInterval(() => global.gc(), 3)
    for (let round = 0; round < (thorough ? 40 : 4); round++) {
      const w = []
      for (let i = 0; i < 3; i++) {
        const ctx = kzg.DasContextJs.create({ usePrecomp: false, numThreads: i + 1 })
        for (let j = 0; j < 4; j++) w.push(runAsync(ctx, [com, ver, rec, cmp][(i + j + round) % 4], rnd(100), 'collected'))
      }
      global.gc()
      await Promise.all(w)
    }
    // results stay what they were when the object they came in is gone
    const ctx = kzg.DasContextJs.create({ usePrecomp: false, numThreads: 0 })
    const keep = []
    for (let i = 0; i < (thorough ? 60 : 8); i++) {
      const r = i % 2 ? ctx.computeCellsAndKzgProofs(q.cmp.args[0]) : await ctx.asyncComputeCellsAndKzgProofs(q.cmp.args[0])
      keep.push({ cells: r.cells, proofs: r.proofs, again: r.cells })
      if (i % 3 === 0) global.gc()
      await new Promise(r => setImmediate(r))
    }
    for (let i = 0; i < 5; i++) { global.gc(); await new Promise(r => setTimeout(r, 5)) }
    const fill = []
    for (let i = 0; i < 200; i++) fill.push(ctx.blobToKzgCommitment(q.com.args[0]), Buffer.alloc(2048, 0x5a))
    for (const k of keep) {
      count('results kept past their object')
      const e = judge(q.cmp.want, k) || judge(q.cmp.want, k.again, true)
      if (e) complain('a result kept while its object was collected became ' + e)
    }
    clearInterval(stop)
  },

  // memory that failing calls leave behind
  async memory() {
    const ctx = kzg.DasContextJs.create({ usePrecomp: false, numThreads: 1 })
    const v = request(ver, 0), r = request(rec, 0), c = request(com, 0)
    const wrong = new Uint8Array(131071), non = Uint8Array.from(c.args[0]); non.fill(0xff, 0, 32)
    const dup = r.args[0].slice(); dup[1] = dup[0]
    const calls = [['a blob of the wrong size', 40000, () => ctx.blobToKzgCommitment(wrong)], ['a malformed blob', 4000, () => ctx.blobToKzgCommitment(non)],
      ['a repeated index', 1000, () => ctx.recoverCellsAndKzgProofs(dup, r.args[1])], ['lists of different lengths', 2000, () => ctx.verifyCellKzgProofBatch(v.args[0], [], v.args[2], v.args[3])],
      ['a genuine blob', 300, () => ctx.blobToKzgCommitment(c.args[0])]]
    const settle = async () => { for (let i = 0; i < 4; i++) { global.gc(); await new Promise(r => setTimeout(r, 10)) } return process.memoryUsage().rss }
    for (const [name, n, f] of calls) {
      let grew = 0, last = 0
      for (let i = 0; i < n / 4; i++) { sync(f); if (i % 500 === 0) await new Promise(r => setImmediate(r)) }
      for (let round = 0; round < 4; round++) {
        const before = await settle()
        for (let i = 0; i < n; i++) { sync(f); if (i % 500 === 0) await new Promise(r => setImmediate(r)) }
        last = await settle() - before
        count('resident memory after repeated calls')
        if (last > 24 << 20) grew++; else break
      }
      if (grew === 4) complain(`${n} calls with ${name} leave ${last} bytes behind`)
    }
  },

  // the default context precomputes
  async dflt() {
    const ctx = new kzg.DasContextJs()
    for (const l of [com, cmp, rec, ver]) { runSync(ctx, l, 1, 'default context'); await runAsync(ctx, l, 2, 'default context') }
  }
}
function label(j) {
  try { return Object.prototype.toString.call(j) + (j && typeof j.length === 'number' ? ' of ' + j.length : typeof j === 'object' || typeof j === 'function' ? '' : ' ' + String(j)) } catch (e) { return 'something odd' }
}
process.on('unhandledRejection', e => { complain('a rejection nobody could handle: ' + e) })
process.on('uncaughtException', e => { say('NOTE harness: ' + (e && e.stack)); process.exit(3) })
phases[phase]().then(() => {
  recheck(kept)
  for (const [k, n] of counts) say(`COUNT ${k} ${n}`)
  say('DONE')
  process.exit(0)
}, e => { say('NOTE harness: ' + (e && e.stack)); process.exit(3) })
