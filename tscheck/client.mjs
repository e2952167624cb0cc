// C34: what the client sends and returns, against the contract's own reading of the same bytes.
import { ensure, Violation, differ, show, toHex, bits, toBytes } from './lib.mjs'
const copy = v => Array.isArray(v) ? v.map(copy) : v && typeof v === 'object' && !(v instanceof Uint8Array) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v
const P = 10n ** 12n, S = 10n ** 24n
const TICK = 221818n
// p times the root of (1 + s), within a millionth of a millionth
function near (got, p, s, up) {
  if (s === 0n) return got === p
  const f = P + (up ? s : -s)
  const lo = p * p * f, want = got * got * P
  const d = lo > want ? lo - want : want - lo
  // got is rounded down at 1e-24 and the price in between at 1e-24
  return d * 10n ** 13n <= lo * 4n || d <= P * (4n * got * 10n ** 3n + S * 4n) + lo / 10n ** 12n
}
export { near }
const CALLS = {
  ChangeProtocolFee: ['changeProtocolFee', a => [a[0]]],
  AddFeeTier: ['addFeeTier', a => [a[0]]],
  RemoveFeeTier: ['removeFeeTier', a => [a[0]]],
  ChangeFeeReceiver: ['changeFeeReceiver', (a, w) => [a[0], w.actor(a[1])]],
  ClaimFee: ['claimFee', a => [a[0]]],
  RemovePosition: ['removePosition', a => [a[0]]],
  TransferPosition: ['transferPosition', (a, w) => [a[0], w.actor(a[1])]],
  Swap: ['swap', a => a],
  SwapRoute: ['swapRoute', a => a],
  WithdrawProtocolFee: ['withdrawProtocolFee', a => a],
  DepositVara: ['depositVara', a => a],
  WithdrawVara: ['withdrawVara', a => a],
  DepositSingleToken: ['depositSingleToken', (a, w) => [w.actor(a[0]), a[1]]],
  WithdrawSingleToken: ['withdrawSingleToken', (a, w) => a[1] === null && w.rng.chance(1, 2) ? [w.actor(a[0])] : [w.actor(a[0]), a[1]]],
  DepositTokenPair: ['depositTokenPair', (a, w) => a.map(([t, v]) => [w.actor(t), v])],
  WithdrawTokenPair: ['withdrawTokenPair', (a, w) => a.map(([t, v]) => [w.actor(t), v])]
}
/// How to ask the client for an operation, and which call must reach the contract.
function plan (w, op) {
  const r = w.rng, a = op.args
  if (op.method === 'CreatePool') {
    const [x, y, feeTier, price, tick] = a
    return { name: 'createPool', args: [{ tokenX: x, tokenY: y, feeTier }, price], want: [x, y, feeTier, price, undefined], pool: { feeTier, price, tick } }
  }
  if (op.method === 'CreatePosition') {
    const [key, lo, hi, liq] = a
    const known = w.d.pools.find(p => !differ(p.key, key))
    let spot = known && r.chance(9, 10) ? known.pool.sqrtPrice : 15258932000000000000n + r.log(95)
    if (r.chance(1, 4)) spot = spot * (P + BigInt(r.range(-30, 30)) * 10n ** 9n) / P
    const slip = r.pick([0n, 0n, 1n, 10n ** 9n, 10n ** 10n, 5n * 10n ** 10n, P / 2n, BigInt(r.below(10 ** 12))])
    return { name: 'createPosition', args: [key, lo, hi, liq, spot, slip], want: [key, lo, hi, liq, undefined, undefined], limits: [spot, slip] }
  }
  if (op.method === 'Swap' && r.chance(1, 3)) {
    const [key, down, amount, byIn] = a
    const known = w.d.pools.find(p => !differ(p.key, key))
    const est = known && r.chance(3, 4) ? known.pool.sqrtPrice : a[4]
    const slip = r.pick([0n, 10n ** 10n, 5n * 10n ** 10n, BigInt(r.below(9 * 10 ** 11))])
    if (est > 0n && bits(est) <= 96) return { name: 'swapWithSlippage', args: [key, down, amount, byIn, est, slip], want: [key, down, amount, byIn, undefined], limit: [est, slip, down] }
  }
  const [name, f] = CALLS[op.method]
  return { name, args: f(copy(a), w), want: a }
}
function checkCall (w, p, op, sent, got, gas) {
  const what = () => `${p.name}(${show(p.args)})`
  ensure(sent.by === op.by, () => `${what()} is signed by ${sent.by} instead of ${op.by}`)
  ensure(sent.kind === 'send_message' && sent.destination === w.program, () => `${what()} goes to ${sent.destination}`)
  ensure(sent.gasLimit === gas, () => `${what()} is given ${sent.gasLimit} gas instead of ${gas}`)
  ensure(sent.value === op.value, () => `${what()} carries value ${sent.value} instead of ${op.value}`)
  ensure(!got.unread, () => `${what()}: the contract cannot read ${sent.payload}`)
  ensure(got.method === op.method, () => `${what()} calls ${got.method}`)
  const given = copy(got.args), want = copy(p.want)
  if (p.limits) {
    const [spot, slip] = p.limits
    ensure(near(given[4], spot, slip, false) && near(given[5], spot, slip, true), () => `${what()} accepts prices ${given[4]} to ${given[5]}, which is not ${slip} around ${spot}`)
    ensure(given[4] <= spot && spot <= given[5], () => `${what()} does not accept the price it was given`)
    want[4] = given[4]; want[5] = given[5]
  }
  if (p.limit) {
    const [est, slip, down] = p.limit
    ensure(near(given[4] + (down ? 1n : -1n), est, slip, !down), () => `${what()} limits the price to ${given[4]}, which is not ${slip} ${down ? 'below' : 'above'} ${est}`)
    want[4] = given[4]
  }
  if (p.pool) {
    const { feeTier, price, tick } = p.pool
    want[4] = given[4]
    if (feeTier.tickSpacing > 0n && feeTier.tickSpacing <= 100n) ensure(given[4] % feeTier.tickSpacing === 0n && given[4] >= -TICK && given[4] <= TICK, () => `${what()} asks for tick ${given[4]}`)
    if (!got.ok) ensure(!/InvalidInitTick|InvalidInitSqrtPrice/.test(got.err), () => `${what()}: the contract refuses tick ${given[4]}: ${got.err}`)
  }
  const d = differ(given, want)
  ensure(!d, () => `${what()} reaches the contract as ${op.method}(${show(given)}): ${d}`)
}
/// One operation through the client.
export async function call (w, cov, op) {
  const r = w.rng, p = plan(w, op)
  const gas = r.chance(1, 3) ? BigInt(r.range(1, 10 ** 12)) : undefined
  const DEFAULT = 750_000_000_000n
  const before = copy(p.args)
  const want = w.events.length
  const n = w.results.length
  w.sent.length = 0
  const all = gas === undefined ? p.args : [...p.args, ...(p.name === 'withdrawSingleToken' && p.args.length === 1 ? [null] : []), gas]
  let ret, err, threw = false
  const wrapped = r.chance(1, 3)
  try {
    if (wrapped) ret = await (await w.client[p.name + 'Tx'](...all)).withAccount(w.signer(op.by)).signAndSend()
    else ret = await w.client[p.name](w.signer(op.by), ...all)
  } catch (e) { threw = true; err = e }
  ensure(!differ(p.args, before), () => `${p.name} changed its arguments ${show(before)} to ${show(p.args)}`)
  const what = () => `${p.name}(${show(p.args)})`
  if (w.results.length === n) { // nothing was sent
    ensure(threw, () => `${what()} answers ${show(ret)} without calling the contract`)
    const text = String(err?.message ?? err)
    if (p.name === 'depositVara') ensure(op.args[0] < w.deposit, () => `${what()} is refused: ${text}`)
    else if (p.name === 'withdrawVara') ensure(op.args[0] !== null && op.args[0] < w.deposit, () => `${what()} is refused: ${text}`)
    else if (p.name === 'createPool') {
      const { feeTier: t, price } = p.pool
      ensure(t.tickSpacing === 0n || price < 15258932000000000000n || price > 65535383934512647000000000000n, () => `${what()} is refused: ${text}`)
    } else ensure(false, () => `${what()} is refused without calling the contract: ${text}`)
    cov.hit(`refused|${p.name}|${text.slice(0, 30)}`, () => `${what()}: ${text}`)
    return
  }
  ensure(w.results.length === n + 1, () => `${what()} called the contract ${w.results.length - n} times`)
  const got = w.results[n]
  if (p.name === 'depositVara') ensure(op.args[0] >= w.deposit, () => `${what()} sends less than the existential deposit ${w.deposit}`)
  checkCall(w, p, op, w.sent[0], got, gas ?? DEFAULT)
  if (got.ok) {
    ensure(!threw, () => `${what()} throws ${String(err?.message ?? err)}, but the contract answered ${show(got.ret)}`)
    const d = differ(ret, got.ret)
    ensure(!d, () => `${what()} returns ${show(ret)}, the contract answered ${show(got.ret)}: ${d}`)
  } else {
    ensure(threw, () => `${what()} returns ${show(ret)}, but the contract failed with ${got.err}`)
    ensure(String(err?.message ?? err).includes(got.err), () => `${what()} throws ${String(err?.message ?? err)}, the contract failed with ${got.err}`)
  }
  events(w, cov, got, want)
  cov.hit(`call|${p.name}|${wrapped}|${got.ok ? 'ok' : got.err.slice(-40)}|${got.events.length}|${show(got.args).length >> 4}`, () => `${what()} -> ${got.ok ? show(got.ret) : got.err}`)
}
/// The callbacks saw exactly the events the contract emitted.
function events (w, cov, got, from) {
  const seen = w.events.slice(from)
  const want = got.events.filter(e => w.on.has(e.name)).flatMap(e => Array(w.on.get(e.name)).fill(e))
  ensure(seen.length === want.length, () => `the contract emitted ${show(got.events.map(e => e.name))} while listening to ${show([...w.on])}, and ${show(seen.map(e => e.name))} arrived`)
  want.forEach((e, i) => {
    ensure(seen[i].name === e.name, () => `event ${e.name} arrived as ${seen[i].name}`)
    const d = differ(seen[i].data, e.data)
    ensure(!d, () => `${e.name} ${show(e.data)} arrived as ${show(seen[i].data)}: ${d}`)
    cov.hit(`event|${e.name}|${e.data.indexes?.length ?? ''}|${show(e.data).length >> 5}`, () => show(e.data))
  })
  w.events.length = 0
}
const EVENTS = ['PositionCreatedEvent', 'PositionRemovedEvent', 'CrossTickEvent', 'SwapEvent']
export function listen (w, name) {
  const callback = data => w.events.push({ name, data })
  w.client.on({ ident: name, callback })
  w.cbs.get(name).push(callback)
  w.on.set(name, w.cbs.get(name).length)
}
export function toggle (w) {
  const name = w.rng.pick(EVENTS), l = w.cbs.get(name)
  if (l.length === 0 || (l.length < 3 && w.rng.chance(1, 3))) listen(w, name)
  else {
    if (w.rng.chance(1, 3)) { w.client.off({ ident: name }); l.length = 0 } else { const [c] = l.splice(w.rng.below(l.length), 1); w.client.off({ ident: name, callback: c }) }
    w.on.set(name, l.length)
    if (!l.length) w.on.delete(name)
  }
}
export function init (w) {
  w.events = []; w.on = new Map(); w.cbs = new Map(EVENTS.map(e => [e, []]))
  for (const e of EVENTS) if (w.rng.chance(3, 4)) listen(w, e)
}
const U = [1, 2, 3, 4].map(i => '0x' + i.toString(16).padStart(2, '0').repeat(32))
/// One query through the client.
export async function query (w, cov) {
  const r = w.rng, c = w.client
  const pool = w.d.pools.length ? r.pick(w.d.pools) : null
  const strange = { tokenX: U[0], tokenY: U[1], feeTier: { fee: 1n, tickSpacing: 1n } }
  const key = pool && r.chance(9, 10) ? copy(pool.key) : strange
  const user = r.chance(1, 8) ? w.d.admin : r.pick(U)
  const owned = w.users.get(user)?.positions.length ?? 0
  const index = r.chance(7, 8) && owned ? BigInt(r.below(owned)) : BigInt(owned + r.below(3))
  const tick = pool && pool.ticks.length && r.chance(3, 4) ? r.pick(pool.ticks).index : BigInt(r.range(-221818, 221818))
  const tier = w.d.tiers.length && r.chance(3, 4) ? r.pick(w.d.tiers) : { fee: BigInt(r.below(1000)), tickSpacing: 1n }
  const ok = x => { if ('err' in x) throw new Error(x.err); return x.ok }
  const A = a => w.actor(a)
  const Q = {
    feeTierExists: () => [[tier], [tier], 'FeeTierExists', x => x],
    getFeeTiers: () => [[], [], 'GetFeeTiers', x => x],
    getPool: () => { const [a, b] = r.chance(1, 2) ? [key.tokenX, key.tokenY] : [key.tokenY, key.tokenX]; return [[A(a), A(b), key.feeTier], [a, b, key.feeTier], 'GetPool', ok] },
    getPoolKeys: () => { const a = [BigInt(r.below(4)), BigInt(r.below(3))]; return [a, a, 'GetPoolKeys', x => x] },
    getAllPoolsForPair: () => [[A(key.tokenX), A(key.tokenY)], [key.tokenX, key.tokenY], 'GetAllPoolsForPair', ok],
    getPosition: () => [[A(user), index], [user, index], 'GetPosition', ok],
    getPositionWithAssociates: () => [[A(user), index], [user, index], 'GetPositionWithAssociates', ok],
    _getAllPositions: () => [[A(user)], [user], 'GetAllPositions', x => x],
    getPositions: () => { const [s, o] = [BigInt(r.below(5)), BigInt(r.below(4))]; return [[A(user), s, o], [user, s, o], 'GetPositions', x => { const [l, n] = ok(x); return [l.flatMap(([p, v]) => v.map(([q, i]) => [i, [q, p]])).sort((a, b) => Number(a[0] - b[0])).map(v => v[1]), n] }] },
    getProtocolFee: () => [[], [], 'GetProtocolFee', x => x],
    getTick: () => [[key, tick], [key, tick], 'GetTick', ok],
    isTickInitialized: () => [[key, tick], [key, tick], 'IsTickInitialized', x => x],
    getTickmap: () => [[key], [key], 'GetTickmap', x => ({ bitmap: new Map(x) })],
    getLiquidityTicks: () => { const l = pool ? pool.ticks.map(t => t.index).filter(() => r.chance(3, 4)) : []; return [[key, l], [key, l], 'GetLiquidityTicks', ok] },
    getLiquidityTicksAmount: () => [[key], [key], 'GetLiquidityTicksAmount', x => x],
    getUserBalances: () => [[A(user)], [user], 'GetUserBalances', x => new Map(x)],
    getPositionTicks: () => [[A(user), index], [user, index], 'GetPositionTicks', x => x],
    quote: () => {
      const down = r.chance(1, 2), byIn = r.chance(1, 2), amount = r.log(r.pick([20, 60, 100]))
      return [[key, down, amount, byIn], [key, down, amount, byIn, undefined], 'Quote', ok]
    }
  }
  const name = r.pick(Object.keys(Q))
  const [args, want, method, view] = Q[name]()
  await ask(w, cov, name, args, want, method, view)
}
async function ask (w, cov, name, args, want, method, view) {
  const what = () => `${name}(${show(args)})`
  const before = copy(args)
  w.asked.length = 0; w.answers = []
  let ret, err
  try { ret = await w.client[name](...args) } catch (e) { err = e }
  const [a] = w.answers
  if (a?.error) { // an answer the contract does not give
    ensure(err !== undefined && !/unknown query|malformed|trailing/.test(a.error), () => `${what()}: ${a.error}`)
    cov.hit(`trap|${name}`); return
  }
  ensure(a && w.answers.length === 1, () => `${what()} asked the contract ${w.answers.length} times${err ? ': ' + String(err?.message ?? err) : ''}`)
  ensure(!differ(args, before), () => `${what()} changed its arguments`)
  ensure(a.method === method, () => `${what()} asks for ${a.method}`)
  ensure(BigInt(w.asked[0].value ?? 0) === 0n && w.asked[0].destination === w.program, () => `${what()} asks ${w.asked[0].destination} with value ${w.asked[0].value}`)
  if (name === 'quote') { // the limit is the lowest or highest price of the spacing
    const s = args[0].feeTier.tickSpacing, t = TICK / s * s
    const p = await w.c.json(`price ${args[1] ? -t : t}`)
    if (p !== null) ensure(a.args[4] === p, () => `${what()} limits the price to ${a.args[4]}, tick ${args[1] ? -t : t} is at ${p}`)
    want = [...want.slice(0, 4), a.args[4]]
  }
  const d = differ(a.args, want)
  ensure(!d, () => `${what()} reaches the contract as ${method}(${show(a.args)}): ${d}`)
  let exp, fail
  try { exp = view(a.ans) } catch (e) { fail = e.message }
  if (fail) ensure(err !== undefined && String(err?.message ?? err) === fail, () => `${what()} gives ${err === undefined ? show(ret) : String(err?.message ?? err)}, the contract answered error ${fail}`)
  else {
    ensure(err === undefined, () => `${what()} throws ${String(err?.message ?? err)}, the contract answered ${show(exp)}`)
    const d2 = differ(ret, exp)
    ensure(!d2, () => `${what()} returns ${show(ret)}, the contract answered ${show(exp)}: ${d2}`)
  }
  cov.hit(`query|${name}|${fail ?? 'ok'}|${show(ret ?? null).length >> 4}`, () => `${what()} -> ${fail ?? show(ret)}`)
}
/// Queries the client puts together from several answers.
export async function paged (w, cov) {
  const r = w.rng, c = w.client
  const users = [...w.users.values()]
  const u = r.pick(users)
  const what = s => () => `${s} for ${u.user}`
  const n = await c.getUserPositionAmount.call(c, ...(c.getUserPositionAmount.length === 1 ? [w.actor(u.user)] : [{ ...(w.d.pools[0]?.key ?? {}) }, w.actor(u.user)]))
  ensure(n === BigInt(u.positions.length), () => `getUserPositionAmount for ${u.user} is ${show(n)}, there are ${u.positions.length}`)
  const wide = r.chance(1, 8) // without a page size
  const per = wide ? w.m.consts.POSITIONS_ENTRIES_LIMIT : BigInt(r.range(1, 4))
  const count = Math.ceil(u.positions.length / Number(per))
  const skip = r.chance(1, 2) ? undefined : [...Array(count + 1).keys()].filter(() => r.chance(1, 3))
  if (skip && r.chance(1, 2)) skip.reverse()
  const given = r.chance(1, 2) ? BigInt(u.positions.length) : undefined
  const pages = await c.getAllPositions(w.actor(u.user), given, skip, wide ? undefined : per)
  
  const size = Number(per)
  const seen = new Set()
  const pn = Math.ceil(u.positions.length / size)
  for (const g of pages) {
    ensure(Number.isInteger(g.index) && !seen.has(g.index), () => `getAllPositions for ${u.user} gives page ${g.index} twice`)
    seen.add(g.index)
    const exp = u.positions.slice(g.index * size, g.index * size + size).map(q => [q, w.d.pools.find(x => !differ(x.key, q.poolKey)).pool])
    const d = differ(g.entries, exp)
    ensure(!d, () => `getAllPositions(${show([u.user, given, skip, per])}) page ${g.index} is not positions ${g.index * size}.. of ${u.positions.length}: ${d}`)
  }
  for (let i = 0; i < pn; i++) if (!skip?.includes(i)) ensure(seen.has(i), () => `getAllPositions(${show([u.user, given, skip, per])}) leaves out page ${i} of ${pn}`)
  for (const i of seen) ensure(!skip?.includes(i), () => `getAllPositions(${show([u.user, given, skip, per])}) returns page ${i}, which was to be skipped`)
  cov.hit(`pages|${u.positions.length}|${per}|${skip?.length ?? '-'}|${given !== undefined}`, () => `${u.positions.length} positions, ${per} a page, skipping ${show(skip)}: ${show(pages.map(x => [x.index, x.entries.length]))}`)
  const keys = await c.getAllPoolKeys()
  const d = differ(keys, w.d.pools.map(p => p.key))
  ensure(!d, () => `getAllPoolKeys returns ${show(keys)}: ${d}`)
  if (w.d.pools.length) {
    const q = r.pick(w.d.pools)
    const map = await c.getTickmap(q.key)
    const got = await c.getAllLiquidityTicks(q.key, map)
    const exp = q.ticks.map(t => ({ index: t.index, liquidityChange: t.liquidityChange, sign: t.sign }))
    const d2 = differ([...got].sort((a, b) => Number(a.index - b.index)), exp)
    ensure(!d2, () => `getAllLiquidityTicks of ${show(q.key)}: ${d2}`)
    cov.hit(`ticks|${exp.length}`, () => `${exp.length} ticks of ${show(q.key)}`)
  }
}
/// Lists longer than one answer, from a stand-in for the contract that only knows how to cut a list.
export async function long (w, cov) {
  const r = w.rng, R = w.client.contract.registry
  const page = Number(w.m.consts.MAX_POOL_KEYS_RETURNED)
  const n = r.pick([0, 1, page - 1, page, page + 1, 2 * page, 2 * page + 1])
  const keys = [...Array(n).keys()].map(i => ({ tokenX: '0x' + (i + 1).toString(16).padStart(64, '0'), tokenY: '0x' + 'ff'.repeat(32), feeTier: { fee: BigInt(i), tickSpacing: BigInt(1 + i % 100) } }))
  w.fakeQuery = q => { // it answers with what is asked for, and traps when the end does not fit 16 bits
    const t = R.createType('(String, String, u16, u16)', q.payload)
    if (t[1].toString() !== 'GetPoolKeys') return undefined
    const [s, o] = [t[2].toNumber(), t[3].toNumber()]
    if (s + o > 65535) throw new Error('query failed: trap')
    return R.createType('(String, String, (Vec<PoolKey>, u16))', ['Service', 'GetPoolKeys', [keys.slice(o, o + s), n]]).toHex()
  }
  const got = await w.client.getAllPoolKeys()
  const d = differ(got, keys)
  ensure(!d, () => `getAllPoolKeys of ${n} pools: ${d}`)
  cov.hit(`long keys|${n}`, () => `${n} pool keys`)
  const chunks = r.pick([1, 336, 337, 340, 680])
  const bitmap = new Map([...Array(chunks).keys()].map(i => [BigInt(i + 1000), (1n << 64n) - 1n]))
  let asked = 0
  w.fakeQuery = q => {
    const t = R.createType('(String, String, PoolKey, Vec<i32>)', q.payload)
    if (t[1].toString() !== 'GetLiquidityTicks') return undefined
    const l = t[3].toJSON()
    asked++
    ensure(l.length <= 21544, () => `getAllLiquidityTicks asks for ${l.length} ticks at once`)
    return R.createType('(String, String, Result<Vec<LiquidityTick>, InvariantError>)', ['Service', 'GetLiquidityTicks', { ok: l.map(i => ({ index: i, liquidityChange: BigInt(i + 300000), sign: i % 2 === 0 })) }]).toHex()
  }
  const key = { tokenX: U[0], tokenY: U[1], feeTier: { fee: 1n, tickSpacing: 1n } }
  const ticks = await w.client.getAllLiquidityTicks(key, { bitmap })
  w.fakeQuery = null
  const first = 64000n - TICK
  ensure(ticks.length === chunks * 64, () => `getAllLiquidityTicks of ${chunks * 64} ticks gives ${ticks.length}`)
  ticks.forEach((t, i) => ensure(t.index === first + BigInt(i) && t.liquidityChange === t.index + 300000n && t.sign === (t.index % 2n === 0n), () => `getAllLiquidityTicks: entry ${i} of ${ticks.length} is ${show(t)}`))
  cov.hit(`long ticks|${chunks}|${asked}`, () => `${chunks * 64} ticks in ${asked} requests`)
}
const BARE = '0x21' // InvariantError::ReplyHandlingFailed
/// Several calls in one transaction.
export async function batch (w, cov) {
  const r = w.rng, m = w.m
  const by = r.pick(U), n = r.range(1, 5)
  const txs = [], plans = []
  for (let i = 0; i < n; i++) {
    const op = await w.c.json('gen')
    const p = plan(w, op)
    try { txs.push(await w.client[p.name + 'Tx'](...p.args)); plans.push([p, { ...op, by }]) } catch (e) {}
  }
  if (!txs.length) return
  w.sent.length = 0
  const at = w.results.length
  const from = w.events.length
  if (r.chance(1, 12)) w.refuse = 'refused by the chain'
  // a transfer whose reply could not be handled is answered, as a success, with the contract's bare error
  const garbled = new Set()
  if (r.chance(1, 2)) w.garble = i => /^(deposit|withdraw)(SingleToken|TokenPair|Vara)$/.test(plans[i][0].name) && r.chance(1, 2) ? (garbled.add(i), BARE) : undefined
  let ret, err
  try { ret = await m.utils.batchTxs(w.api, w.signer(by), txs) } catch (e) { err = e }
  w.garble = null
  if (w.refuse) { ensure(err !== undefined && w.results.length === at, () => `a refused batch gives ${show(ret)}`); w.refuse = null; cov.hit('batch|refused'); return }
  const got = w.results.slice(at)
  ensure(got.length === txs.length, () => `a batch of ${txs.length} calls made ${got.length}: ${String(err?.message ?? err)}`)
  got.forEach((g, i) => checkCall(w, ...plans[i], w.sent[i], g, 750_000_000_000n))
  const failed = got.map((g, i) => [i, g]).filter(x => !x[1].ok || garbled.has(x[0]))
  if (failed.length) {
    ensure(err instanceof m.utils.BatchError, () => `a batch with ${failed.length} failing calls gives ${show(ret)} ${String(err?.message ?? err)}`)
    const told = i => { const t = err.failedTxs.get(i); return typeof t === 'string' && t !== '' ? t : 'some explanation' }
    const exp = new Map(failed.map(([i, g]) => [i, garbled.has(i) ? told(i) : g.err]))
    const d = differ(err.failedTxs, exp)
    ensure(!d, () => `a batch reports ${show(err.failedTxs)}, what failed is ${show(exp)}: ${d}`)
  } else {
    ensure(err === undefined, () => `a batch without a failing call throws ${String(err?.message ?? err)}`)
    ensure(ret.length === got.length && ret.every((x, i) => x.data.message.payload === got[i].reply), () => 'a batch returns the replies in another order')
  }
  // events of all its calls
  events(w, cov, { events: got.flatMap(g => g.events) }, from)
  cov.hit(`batch|${got.map((g, i) => garbled.has(i) ? 'g' : +g.ok).join('')}`, () => `${show(plans.map(p => p[0].name))} -> ${show(got.map(g => g.ok || g.err))}`)
}
// ------------------------------------------------------------------------------------------------ tokens
const str = s => [s.length << 2, ...new TextEncoder().encode(s)]
const le = v => { const o = []; for (let i = 0; i < 32; i++) { o.push(Number(v & 255n)); v >>= 8n } return o }
export async function token (w, cov) {
  const r = w.rng, F = w.m.erc20.FungibleToken
  const erc = await F.load(w.api)
  const admin = { address: 'admin', addressRaw: toBytes(w.d.admin) }
  const at = '0x' + r.big(256).toString(16).padStart(64, '0')
  const [a, b, by] = [r.pick(U), r.pick(U), r.pick(U)]
  const v = r.pick([0n, 1n, r.log(256), (1n << 256n) - 1n, r.log(60)])
  const answer = r.chance(2, 3)
  const calls = {
    approve: [[w.actor(a), v, at], by, 'Approve', [...toBytes(a), ...le(v)]],
    transfer: [[w.actor(a), v, at], by, 'Transfer', [...toBytes(a), ...le(v)]],
    transferFrom: [[w.actor(a), w.actor(b), v, at], by, 'TransferFrom', [...toBytes(a), ...toBytes(b), ...le(v)]],
    mint: [[w.actor(a), v, at], w.d.admin, 'Mint', [...toBytes(a), ...le(v)]],
    burn: [[w.actor(a), v, at], w.d.admin, 'Burn', [...toBytes(a), ...le(v)]],
    setTransferFail: [[answer, at], w.d.admin, 'SetTransferFail', [+answer]]
  }
  const name = r.pick(Object.keys(calls))
  const [args, signer, method, bytes] = calls[name]
  const set = name === 'setTransferFail', own = name === 'mint' || name === 'burn' || set
  if (own) {
    let e; try { await erc[name](...args) } catch (x) { e = x }
    ensure(e !== undefined, () => `${name} without an administrator gives an answer`)
    erc.setAdmin(admin)
  }
  let gas = r.chance(1, 2) ? BigInt(r.range(1, 10 ** 9)) : undefined
  const fail = r.chance(1, 6)
  // the same client was used for another token just before
  const other = '0x' + r.big(256).toString(16).padStart(64, '0')
  const before = r.chance(1, 2)
  if (before) {
    w.asked.length = 0
    w.fakeQuery = () => toHex([...str('Vft'), ...str('TotalSupply'), ...le(7n)])
    const n = await erc.totalSupply(other)
    w.fakeQuery = null
    ensure(n === 7n && w.asked.length === 1 && w.asked[0].destination === other, () => `totalSupply of ${other} asks ${w.asked[0]?.destination} and returns ${show(n)}`)
  }
  w.sent.length = 0
  w.fake = () => fail ? { ok: false, err: 'the token refuses' } : { ok: true, reply: toHex([...str('Vft'), ...str(method), ...(set ? [] : [+answer])]) }
  let ret, err
  try { ret = set ? await (gas === undefined ? erc.setTransferFail(...args) : erc.setTransferFail(...args, gas)) : gas !== undefined ? await (await erc[name + 'Tx'](...args, gas)).withAccount(signer).signAndSend() : own ? await erc[name](...args) : await erc[name](w.signer(signer), ...args) } catch (e) { err = e }
  w.fake = null
  const [s] = w.sent
  const what = () => `${name}(${show(args)})`
  ensure(w.sent.length === 1, () => `${what()} sends ${w.sent.length} messages`)
  ensure(s.destination === at && s.by === signer && s.value === 0n && s.gasLimit === (gas ?? 750_000_000_000n), () => `${what()} by ${signer} is sent to ${s.destination} by ${s.by} with value ${s.value} and gas ${s.gasLimit}`)
  const want = toHex([...str('Vft'), ...str(method), ...bytes])
  ensure(s.payload === want, () => `${what()} sends ${s.payload} instead of ${want}`)
  if (fail) ensure(err !== undefined && String(err.message).includes('the token refuses'), () => `${what()} gives ${show(ret)} although the token failed`)
  else ensure(err === undefined && (set || ret === answer), () => `${what()} gives ${show(ret)} ${err ?? ''}, the token answered ${answer}`)
  cov.hit(`token|${name}|${bits(v) >> 4}|${fail}|${answer}`, () => `${what()} -> ${fail ? 'fails' : answer}`)
  // two calls prepared for two tokens, sent afterwards
  if (r.chance(1, 3)) {
    w.sent.length = 0
    w.fake = () => ({ ok: true, reply: toHex([...str('Vft'), ...str('Approve'), 1]) })
    const [p, q] = await Promise.all([erc.approveTx(w.actor(a), v, at), erc.approveTx(w.actor(b), v, other)])
    for (const t of r.chance(1, 2) ? [p, q] : [q, p]) await t.withAccount(w.signer(by)).signAndSend()
    w.fake = null
    const went = w.sent.map(s => [s.destination, s.payload]).sort(), should = [[at, toHex([...str('Vft'), ...str('Approve'), ...toBytes(a), ...le(v)])], [other, toHex([...str('Vft'), ...str('Approve'), ...toBytes(b), ...le(v)])]].sort()
    ensure(show(went) === show(should), () => `two prepared approvals are sent as ${show(went)} instead of ${show(should)}`)
    cov.hit(`token pair|${bits(v) >> 4}`, () => `approvals for ${at} and ${other}`)
  }
  // questions
  const n = r.log(256), place = r.chance(1, 2) ? at : other
  const text = r.pick(['', 'Coin', 'Ünïcode ₿', 'x'.repeat(80)])
  const t8 = new TextEncoder().encode(text)
  const len = t8.length < 64 ? [t8.length << 2] : [(t8.length << 2 | 1) & 255, t8.length >> 6]
  const qs = {
    balanceOf: [[w.actor(a), place], 'BalanceOf', [...toBytes(a)], le(n), n],
    allowance: [[w.actor(a), w.actor(b), place], 'Allowance', [...toBytes(a), ...toBytes(b)], le(n), n],
    totalSupply: [[place], 'TotalSupply', [], le(n), n],
    decimals: [[place], 'Decimals', [], [Number(n & 255n)], n & 255n],
    name: [[place], 'Name', [], [...len, ...t8], text],
    symbol: [[place], 'Symbol', [], [...len, ...t8], text]
  }
  const q = r.pick(Object.keys(qs))
  const [qa, qm, qb, rep, exp] = qs[q]
  w.asked.length = 0
  w.fakeQuery = () => toHex([...str('Vft'), ...str(qm), ...rep])
  const ans = await erc[q](...qa)
  w.fakeQuery = null
  const [sent] = w.asked
  const qw = toHex([...str('Vft'), ...str(qm), ...qb])
  ensure(w.asked.length === 1 && BigInt(sent.value ?? 0) === 0n && sent.destination === place && sent.payload === qw, () => `${q}(${show(qa)}) asks ${sent?.destination} ${sent?.payload} instead of ${qw}`)
  const d = differ(ans, exp)
  ensure(!d, () => `${q}(${show(qa)}) returns ${show(ans)}, the token answered ${show(exp)}: ${d}`)
  cov.hit(`token query|${q}|${bits(n) >> 4}`, () => `${q} -> ${show(ans)}`)
}
/// Deployment: the constructor the program's code is uploaded with.
export async function deploy (w, cov) {
  const r = w.rng
  const by = r.pick(U), fee = r.pick([0n, 10n ** 10n, r.log(128)]), gas = r.chance(1, 2) ? BigInt(r.range(1, 10 ** 9)) : undefined
  w.sent.length = 0
  w.fake = () => ({ ok: true, reply: toHex(str('New')) })
  const inv = await w.m.invariant.Invariant.deploy(w.api, { address: by, addressRaw: toBytes(by) }, fee, ...(gas === undefined ? [] : [gas]))
  w.fake = null
  const [s] = w.sent
  const want = toHex([...str('New'), ...toBytes(by), ...le(fee).slice(0, 16)])
  ensure(s.kind === 'upload_program' && s.payload === want && s.by === by && s.gasLimit === (gas ?? 750_000_000_000n), () => `deploying for ${by} with fee ${fee} sends ${s.payload} by ${s.by} with gas ${s.gasLimit}, expected ${want}`)
  ensure(inv.programId() === s.program, 'the deployed program is not the one that was uploaded')
  // a token
  const [name, symbol, dec] = [r.pick(['', 'Coin', 'Wrapped thing']), r.pick(['', 'CN']), r.pick([undefined, 0n, 12n, 255n])]
  w.sent.length = 0
  w.fake = () => ({ ok: true, reply: toHex(str('New')) })
  const t = await w.m.erc20.FungibleToken.deploy(w.api, { address: by, addressRaw: toBytes(by) }, name, symbol, ...(dec === undefined ? [] : [dec]), ...(dec === undefined || gas === undefined ? [] : [gas]))
  w.fake = null
  const [u] = w.sent, uw = toHex([...str('New'), ...str(name), ...str(symbol), Number(dec ?? 0n)])
  ensure(u.kind === 'upload_program' && u.payload === uw && u.by === by && u.gasLimit === (dec === undefined ? undefined : gas) || u.gasLimit === 750_000_000_000n && u.payload === uw && u.by === by, () => `deploying token ${name} ${symbol} ${dec} sends ${u.payload} by ${u.by} with gas ${u.gasLimit}, expected ${uw}`)
  ensure(t === u.program, () => `the deployed token is ${t}, what was uploaded is ${u.program}`)
  for (const C of [w.m.invariant.Invariant, w.m.erc20.FungibleToken]) {
    const x = await C.load(w.api)
    let e, id; try { id = x.programId() } catch (f) { e = f }
    ensure(e !== undefined, () => `a client without a program says its program is ${id}`)
  }
  cov.hit(`deploy|${bits(fee) >> 3}`, () => `deployed by ${by} with fee ${fee}`)
}
export async function history (w, cov, i) {
  init(w)
  for (let s = 0; s < w.steps; s++) {
    const op = await w.c.json('gen')
    if (w.rng.chance(1, 6)) toggle(w)
    if (w.rng.chance(1, 12)) await batch(w, cov)
    else await call(w, cov, op)
    await w.refresh()
    for (let q = 0; q < 4; q++) await query(w, cov)
    if (w.rng.chance(1, 4)) await paged(w, cov)
    if (w.rng.chance(1, 4)) await token(w, cov)
  }
  await deploy(w, cov)
  if (i % 4 === 0) await long(w, cov)
}
