// C35: what the client computes by itself, against exact arithmetic, the contract and the SDK's native code.
import { ensure, Violation, Harness, differ, show, bits, isqrt, toHex } from './lib.mjs'
import { near } from './client.mjs'
const P = 10n ** 12n, S = 10n ** 24n, LO = 15258932000000000000n, HI = 65535383934512647000000000000n, TICK = 221818n
const copy = v => v instanceof Map ? new Map(v) : Array.isArray(v) ? v.map(copy) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v
const max = (a, b) => a > b ? a : b, min = (a, b) => a < b ? a : b
const span = s => TICK / s * s
const price = (w, t) => { const c = w.prices ??= new Map(); return c.has(t) ? c.get(t) : w.c.json('price ' + t).then(p => { if (p !== null) p = BigInt(p); c.set(t, p); return p }) }
async function native (w, line) {
  if (!w.native) throw new Harness('the SDK process is missing')
  const a = await w.native.ask(line + '\n.')
  if (a.startsWith('bad')) throw new Harness(a)
  return a.startsWith('ok') ? a.slice(3).split(' ') : null
}
/// A call of the client that must not change what it is given; what it answers, or the error.
function run (f, ...args) {
  const was = copy(args)
  let ret, err
  try { ret = f(...args) } catch (e) { err = e ?? 'nothing' }
  const d = differ(args, was)
  ensure(!d, () => `${f.name}(${show(was)}) changed its arguments: ${d}`)
  return { ret, err }
}
function same (name, args, { ret, err }, want) {
  if (want === null) { ensure(err !== undefined, () => `${name}(${show(args)}) answers ${show(ret)}, but there is no answer`); return }
  ensure(err === undefined, () => `${name}(${show(args)}) throws ${String(err?.message ?? err)} instead of answering ${show(want)}`)
  const d = differ(ret, want)
  ensure(!d, () => `${name}(${show(args)}) is ${show(ret)}, expected ${show(want)}: ${d}`)
}
const somePrice = r => { const k = r.below(8); return k === 0 ? LO : k === 1 ? HI : k === 2 ? S : k < 5 ? min(HI, max(LO, S * (P + BigInt(r.range(-(10 ** 11), 10 ** 11))) / P)) : min(HI, max(LO, r.log(96))) }
const someTick = (r, s = 1n) => { const m = span(s) / s; return (r.chance(1, 6) ? (r.chance(1, 2) ? m : -m) : r.chance(1, 3) ? BigInt(r.range(-30, 30)) : BigInt(r.range(-Number(m), Number(m)))) * s }
const someSpacing = r => r.pick([1n, 2n, 5n, 10n, 30n, 100n, BigInt(r.range(1, 100))])

/// What needs no pool.
async function plain (w, cov) {
  const r = w.rng, u = w.m.utils, c = w.m.consts
  const a = somePrice(r), b = r.chance(1, 5) ? a : somePrice(r)
  const check = (name, args, want, sig = '') => { if (typeof u[name] !== 'function') return; const x = run(u[name], ...args); same(name, args, x, want); cov.hit(`${name}|${want === null ? 'none' : bits(typeof want === 'bigint' ? want : 0n) >> 2}|${sig}`, () => `${name}(${show(args)}) = ${show(want)}`) }
  check('sqrtPriceToPrice', [a], a * a / S)
  const p = r.chance(1, 2) ? a * a / S : r.log(r.pick([40, 90, 120]))
  check('priceToSqrtPrice', [p], isqrt(p * S))
  { // there and back
    const back = u.priceToSqrtPrice(u.sqrtPriceToPrice(a))
    ensure(back <= a && (a - back) * 2n * a <= S + 2n * a, () => `priceToSqrtPrice(sqrtPriceToPrice(${a})) is ${back}`)
  }
  check('calculatePriceImpact', [a, b], (a > b ? a * a - b * b : b * b - a * a) * P / max(a * a, b * b), a === b)
  for (const up of [false, true]) {
    const slip = r.pick([0n, 1n, 10n ** 9n, 10n ** 10n, P / 2n, P, BigInt(r.below(10 ** 12))])
    const args = [a, slip, up], x = run(u.calculateSqrtPriceAfterSlippage, ...args)
    ensure(x.err === undefined && typeof x.ret === 'bigint' && near(x.ret, a, slip, up), () => `calculateSqrtPriceAfterSlippage(${show(args)}) is ${show(x.ret ?? String(x.err))}, which is not the root of the price moved by ${slip}`)
    ensure(up ? x.ret >= a || slip < 100n : x.ret <= a, () => `calculateSqrtPriceAfterSlippage(${show(args)}) is ${x.ret}, on the wrong side`)
    cov.hit(`slippage|${up}|${bits(slip)}|${bits(a) >> 3}`, () => `${show(args)} -> ${x.ret}`)
  }
  // numbers with a scale
  const scales = { FeeGrowth: [28, 128], FixedPoint: [12, 128], Liquidity: [5, 256], Percentage: [12, 128], Price: [24, 128], SecondsPerLiquidity: [25, 128], SqrtPrice: [24, 128], TokenAmount: [0, 256] }
  {
    const n = r.pick(Object.keys(scales)), [sc, width] = scales[n]
    const from = r.chance(1, 2) ? r.below(sc + 1) : r.below(20), v = r.log(r.pick([10, 40, 64]))
    const want = from > sc ? v / 10n ** BigInt(from - sc) : v * 10n ** BigInt(sc - from)
    if (bits(want) <= width) check('to' + n, [v, BigInt(from)], want, `${n}|${from > sc}`)
    const up = n.replace(/[A-Z]/g, (m, i) => (i ? '_' : '') + m).toUpperCase()
    if (c[up + '_SCALE'] !== undefined) ensure(c[up + '_SCALE'] === BigInt(sc) && c[up + '_DENOMINATOR'] === 10n ** BigInt(sc), () => `${n} has scale ${c[up + '_SCALE']} and denominator ${c[up + '_DENOMINATOR']}`)
  }
  // ticks
  const s = someSpacing(r), m = span(s), t = someTick(r, s)
  check('getMaxTick', [s], m); check('getMinTick', [s], -m)
  check('getMaxSqrtPrice', [s], await price(w, m)); check('getMinSqrtPrice', [s], await price(w, -m))
  check('getMaxChunk', [s], (m + TICK) / s / 64n)
  const pt = await price(w, t)
  check('calculateSqrtPrice', [t], pt)
  if (r.chance(1, 8)) check('calculateSqrtPrice', [(r.chance(1, 2) ? 1n : -1n) * (TICK + 1n + BigInt(r.below(1000)))], null)
  if (typeof u.positionToTick === 'function') { // the place of a tick in the map leads back to it
    const at = w.m.utils.tickIndexToPosition ?? globalThis.__sdkwasm.tickIndexToPosition
    const [ch, bit] = at(t, s)
    check('positionToTick', [BigInt(ch), BigInt(bit), s], t)
    ensure(BigInt(ch) * 64n + BigInt(bit) === (t + TICK) / s && Number(bit) < 64, () => `tick ${t} of spacing ${s} is put at ${show([ch, bit])}`)
  }
  {
    const q = r.chance(1, 2) ? a : min(HI, max(LO, pt + r.pick([0n, 1n, -1n])))
    const { ret, err } = run(u.calculateTick, q, s)
    ensure(err === undefined && typeof ret === 'bigint' && ret % s === 0n, () => `calculateTick(${q}, ${s}) is ${show(ret ?? String(err))}`)
    if (ret >= -TICK && ret < TICK) { const [x, y] = [await price(w, ret), await price(w, min(ret + s, TICK))]; ensure(x <= q && (q < y || ret + s > TICK), () => `calculateTick(${q}, ${s}) is ${ret}, whose price is ${x} and the next one's ${y}`) } else ensure(ret < 0n ? ret > -TICK - s && q < await price(w, ret + s) : ret === TICK && q >= await price(w, TICK), () => `calculateTick(${q}, ${s}) is ${ret}`)
    cov.hit(`calculateTick|${s}|${bits(q) >> 2}|${q === pt}`, () => `calculateTick(${q}, ${s}) = ${ret}`)
  }
  // tiers and keys
  const fee = r.pick([0n, 1n, 10n ** 9n, P - 1n, BigInt(r.below(10 ** 12))])
  check('newFeeTier', [fee, s], { fee, tickSpacing: s }, s)
  if (typeof u.calculateFeeTierWithLinearRatio === 'function') check('calculateFeeTierWithLinearRatio', [s], { fee: s * 10n ** 8n, tickSpacing: s })
  const tok = () => '0x' + (r.chance(1, 3) ? r.log(256) : r.big(256)).toString(16).padStart(64, '0')
  let [x, y] = [tok(), tok()]
  if (r.chance(1, 3)) y = x.slice(0, 2 + 2 * r.below(32)) + y.slice(2); y = r.chance(1, 20) ? x : y.slice(0, 66)
  if (x !== y) {
    check('isTokenX', [x, y], x < y, x < y)
    check('newPoolKey', [x, y, { fee, tickSpacing: s }], { tokenX: x < y ? x : y, tokenY: x < y ? y : x, feeTier: { fee, tickSpacing: s } }, x < y)
  } else { check('newPoolKey', [x, y, { fee, tickSpacing: s }], null) }
  // breakpoints
  {
    let at = -100n
    const l = [...Array(r.below(12))].map(() => ({ index: at += BigInt(r.range(1, 50)), liquidityChange: r.log(200), sign: r.chance(1, 2) }))
    let sum = 0n
    check('calculateLiquidityBreakpoints', [l], l.map(t => ({ liquidity: sum += t.sign ? t.liquidityChange : -t.liquidityChange, index: t.index })), l.length)
  }
  // concentration
  if (typeof u.calculateConcentration === 'function' && typeof u.calculateTickDelta === 'function') {
    const ts = Number(s), mr = r.range(1, 20), n = r.range(0, 400)
    const want = 1 / (1 - Math.pow(1.0001, -ts * (mr + 2 * n) / 4)) / 1.00001526069123
    const got = u.calculateConcentration(ts, mr, n)
    ensure(Math.abs(got - want) <= want * 1e-9, () => `calculateConcentration(${ts}, ${mr}, ${n}) is ${got}, expected ${want}`)
    const back = u.calculateTickDelta(ts, mr, got)
    ensure(Math.abs(back - n) <= 1, () => `calculateTickDelta(${ts}, ${mr}, ${got}) is ${back}, expected ${n}`)
    cov.hit(`concentration|${ts}|${mr}`, () => `${got} over ${n} ticks`)
    if (typeof u.getConcentrationArray === 'function') {
      const cur = Number(someTick(r, s)), even = 2 * r.range(1, 10)
      const room = (Number(m) - Math.abs(cur) - even / 2 * ts) / ts
      const q = run(u.getConcentrationArray, ts, even, cur)
      if (room < 0) ensure(q.err !== undefined, () => `getConcentrationArray(${ts}, ${even}, ${cur}) gives ${show(q.ret)} although the ticks end before`)
      else {
        ensure(q.err === undefined && q.ret.length <= Math.max(0, Math.ceil(room)), () => `getConcentrationArray(${ts}, ${even}, ${cur}) gives ${q.ret?.length} values, ${room} ranges fit ${q.err ?? ''}`)
        q.ret.forEach((v, i) => ensure(v >= 1 && (i === 0 ? Math.abs(v - u.calculateConcentration(ts, even, 0)) < 1e-6 * v : v <= Math.ceil(q.ret[i - 1])), () => `getConcentrationArray(${ts}, ${even}, ${cur}): value ${i} is ${v} after ${q.ret[i - 1]}`))
        if (q.ret.length < Math.floor(room)) ensure(q.ret[q.ret.length - 1] <= 2 || q.ret.length === 0, () => `getConcentrationArray(${ts}, ${even}, ${cur}) ends with ${q.ret[q.ret.length - 1]}, ${room} ranges fit`)
        cov.hit(`concentrations|${ts}|${q.ret.length >> 4}`, () => `${q.ret.length} values from ${q.ret[0]}`)
      }
    }
  }
  serializer(w, cov)
}
function constants (w, cov) {
  const c = w.m.consts, k = w.m.computedConsts
  const want = { MAX_SQRT_PRICE: HI, MIN_SQRT_PRICE: LO, SEARCH_RANGE: 256n, CHUNK_SIZE: 64n, LIQUIDITY_TICKS_LIMIT: 21544n, CONCENTRATION_FACTOR: 1.00001526069123, VARA_ADDRESS: '0x' + '00'.repeat(32) }
  for (const [n, v] of Object.entries(want)) if (c[n] !== undefined) ensure(typeof v === 'bigint' ? BigInt(c[n]) === v : c[n] === v, () => `${n} is ${show(c[n])}, expected ${show(v)}`)
  const tiers = [1n, 2n, 5n, 10n, 30n, 100n].map(s => ({ fee: s * 10n ** 8n, tickSpacing: s }))
  const d = differ(k.FEE_TIERS, tiers)
  ensure(!d, () => `FEE_TIERS is ${show(k.FEE_TIERS)}: ${d}`)
  for (const t of tiers) {
    const l = k.CONCENTRATION_ARRAY[t.tickSpacing]
    ensure(l?.length && l.every((v, i) => v >= 1 && (i === 0 || v >= l[i - 1])), () => `CONCENTRATION_ARRAY of ${t.tickSpacing} is not ascending`)
  }
  cov.hit('constants', () => show(want))
}
/// Encoding and decoding of what goes to the wasm module.
function serializer (w, cov) {
  const r = w.rng, s = w.m.wasmSerializer
  const v = () => r.pick([0n, 1n, r.log(256), (1n << 256n) - 1n, r.log(64)])
  const tick = () => ({ index: someTick(r), sign: r.chance(1, 2), liquidityChange: v(), liquidityGross: v(), sqrtPrice: r.log(96), feeGrowthOutsideX: r.log(128), feeGrowthOutsideY: r.log(128), secondsOutside: r.log(64) })
  const things = {
    TokenAmount: v, Liquidity: v, Tick: tick,
    LiquidityTick: () => ({ index: someTick(r), liquidityChange: v(), sign: r.chance(1, 2) }),
    Pool: () => ({ liquidity: v(), sqrtPrice: r.log(96), currentTickIndex: someTick(r), feeGrowthGlobalX: r.log(128), feeGrowthGlobalY: r.log(128), feeProtocolTokenX: v(), feeProtocolTokenY: v(), startTimestamp: r.log(64), lastTimestamp: r.log(64), feeReceiver: '0x12' }),
    Position: () => ({ poolKey: { tokenX: '0x1', tokenY: '0x2', feeTier: { fee: 1n, tickSpacing: 2n } }, liquidity: v(), lowerTickIndex: someTick(r), upperTickIndex: someTick(r), feeGrowthInsideX: r.log(128), feeGrowthInsideY: r.log(128), lastBlockNumber: r.log(64), tokensOwedX: v(), tokensOwedY: v(), createdAt: r.log(64) }),
    LiquidityResult: () => ({ x: v(), y: v(), l: v() }), SingleTokenLiquidity: () => ({ amount: v(), l: v() }), TokenAmounts: () => ({ x: v(), y: v() }), AmountDeltaResult: () => ({ x: v(), y: v(), updateLiquidity: true }),
    CalculateFeeResult: () => [v(), v()], CalculateAmountDeltaResult: () => [v(), v(), r.chance(1, 2)], SwapResult: () => ({ nextSqrtPrice: r.log(96), amountIn: v(), amountOut: v(), feeAmount: v() }),
    QuoteResult: () => ({ amountIn: v(), amountOut: v(), targetSqrtPrice: r.log(96), ticks: [...Array(r.below(4))].map(tick) }),
    CalculateSwapResult: () => ({ amountIn: v(), amountOut: v(), startSqrtPrice: r.log(96), targetSqrtPrice: r.log(96), fee: v(), pool: things.Pool(), ticks: [...Array(r.below(4))].map(tick) })
  }
  const n = r.pick(Object.keys(things))
  const [e, d] = [s['encode' + n], s['decode' + n]]
  if (typeof e !== 'function' || typeof d !== 'function') return
  const x = things[n]()
  const enc = run(e, x)
  ensure(enc.err === undefined, () => `encode${n}(${show(x)}) throws ${enc.err}`)
  const flat = o => o !== null && typeof o === 'object' ? Object.values(o).flatMap(flat) : [o]
  ensure(flat(enc.ret).every(y => typeof y !== 'bigint' || bits(y) <= 128), () => `encode${n}(${show(x)}) leaves a number wider than 128 bits: ${show(enc.ret)}`)
  const dec = run(d, enc.ret)
  same(`decode${n} of encode${n}`, [x], dec, x)
  cov.hit(`serializer|${n}|${show(x).length >> 5}`, () => `${n} ${show(x)}`)
}
/// What is computed from a pool's state.
async function state (w, cov) {
  const r = w.rng, u = w.m.utils
  const pools = w.d.pools
  if (!pools.length) return
  const q = r.pick(pools), key = q.key, s = key.feeTier.tickSpacing, pool = q.pool
  const known = [...w.users.values()].flatMap(v => v.positions.map((p, i) => [v.user, i, p]))
  // positions
  for (let k = 0; k < 2 && known.length; k++) {
    const [user, i, pos] = r.pick(known)
    const of = pools.find(x => !differ(x.key, pos.poolKey))
    const [lo, hi] = [pos.lowerTickIndex, pos.upperTickIndex].map(t => of.ticks.find(x => x.index === t))
    const claim = await w.c.json(`worth ${user} ${i} 0`), leave = await w.c.json(`worth ${user} ${i} 1`)
    const f = run(u.calculateFee, of.pool, pos, lo, hi)
    if (claim.ok) same('calculateFee', [of.pool, pos, lo, hi], f, claim.ret)
    const t = run(u.calculateTokenAmounts, of.pool, pos)
    if (claim.ok && leave.ok) {
      ensure(t.err === undefined && typeof t.ret[0] === 'bigint' && t.ret[0] + claim.ret[0] === leave.ret[0] && t.ret[1] + claim.ret[1] === leave.ret[1], () => `calculateTokenAmounts(${show([of.pool, pos])}) is ${show(t.ret ?? String(t.err))}; removing the position pays ${show(leave.ret)}, ${show(claim.ret)} of it fees`)
      cov.hit(`position|${(of.pool.currentTickIndex >= lo.index) + (of.pool.currentTickIndex >= hi.index)}|${bits(claim.ret[0]) >> 4}|${bits(claim.ret[1]) >> 4}|${bits(leave.ret[0]) >> 4}`, () => `position ${show(pos)} holds ${show(t.ret)} and ${show(f.ret)} of fees`)
    }
  }
  // amounts of a range
  for (let k = 0; k < 3; k++) {
    let lo = someTick(r, s), hi = someTick(r, s)
    if (r.chance(1, 2)) { const c = pool.currentTickIndex / s * s; lo = max(-span(s), c - s * BigInt(r.range(-3, 40))); hi = min(span(s), c + s * BigInt(r.range(-3, 40))) }
    if (lo === hi) continue
    if (lo > hi) [lo, hi] = [hi, lo]
    const l = r.pick([r.log(100), r.log(180), 10n ** 11n]), up = r.chance(1, 2)
    const mid = r.chance(2, 3) ? pool.sqrtPrice : somePrice(r), at = mid
    const tick = at === pool.sqrtPrice ? pool.currentTickIndex : await tickOf(w, at, s)
    const n = await native(w, `amounts ${tick} ${at} ${l} ${+up} ${hi} ${lo}`)
    const got = run(u.calculateAmountDelta, tick, at, l, up, hi, lo)
    same('calculateAmountDelta', [tick, at, l, up, hi, lo], got, n && [BigInt(n[0]), BigInt(n[1])])
    cov.hit(`amounts|${(tick >= lo) + (tick >= hi)}|${up}|${n ? bits(BigInt(n[0])) >> 4 : 'none'}`, () => `amounts of ${l} in ${lo}..${hi} at ${at}: ${show(n)}`)
    for (const d of ['x', 'y']) {
      const amount = r.log(r.pick([20, 64, 100]))
      const n = await native(w, `by_${d} ${amount} ${lo} ${hi} ${at} ${+up}`)
      const name = 'getLiquidityBy' + d.toUpperCase()
      same(name, [amount, lo, hi, at, up], run(u[name], amount, lo, hi, at, up), n && { l: BigInt(n[0]), amount: BigInt(n[1]) })
      cov.hit(`by ${d}|${n ? bits(BigInt(n[0])) >> 4 : 'none'}|${up}`, () => `${name}(${show([amount, lo, hi, at, up])}) = ${show(n)}`)
    }
    if (typeof u.calculateTokenAmountsWithSlippage === 'function') { // the most of either token within the slippage
      const slip = r.pick([0n, 10n ** 9n, 10n ** 10n, 5n * 10n ** 10n, BigInt(r.below(3 * 10 ** 11))])
      const [bot, top] = [await price(w, -TICK), await price(w, TICK)]
      // near the ends the range is cut off at the lowest or highest price
      const at = r.chance(1, 4) ? r.pick([bot, top, top - 1n, max(bot, top - r.log(bits(top) - 3)), bot + r.log(bits(bot) - 3)]) : mid
      const [a, b] = [max(bot, u.calculateSqrtPriceAfterSlippage(at, slip, false)), min(top, u.calculateSqrtPriceAfterSlippage(at, slip, true))]
      {
        const of = async p => { const n = await native(w, `amounts ${await tickOf(w, p, s)} ${p} ${l} ${+up} ${hi} ${lo}`); return n && [BigInt(n[0]), BigInt(n[1])] }
        const [x, y] = [await of(a), await of(b)]
        const got = run(u.calculateTokenAmountsWithSlippage, s, at, l, lo, hi, slip, up)
        const args = [s, at, l, lo, hi, slip, up]
        if (x && y) {
          same('calculateTokenAmountsWithSlippage', args, got, [max(x[0], y[0]), max(x[1], y[1])])
          const p = a + (b - a) * BigInt(r.below(101)) / 100n, z = await of(p)
          if (z) ensure(z[0] <= got.ret[0] + 1n && z[1] <= got.ret[1] + 1n, () => `calculateTokenAmountsWithSlippage(${show(args)}) is ${show(got.ret)}, but price ${p} within it takes ${show(z)}`)
          cov.hit(`slipping|${(await tickOf(w, a, s) >= lo) + (await tickOf(w, b, s) >= hi) * 2}|${bits(slip) >> 3}|${up}`, () => `${show(args)} -> ${show(got.ret)}`)
        }
      }
    }
  }
  // simulation
  const ticks = q.ticks.map(t => ({ index: t.index, liquidityChange: t.liquidityChange, sign: t.sign }))
  const tickmap = { bitmap: new Map(q.map) }
  for (let k = 0; k < 4; k++) {
    const down = r.chance(1, 2), byIn = r.chance(1, 2)
    const amount = r.pick([r.log(20), r.log(60), r.log(110)])
    const m = span(s)
    const limit = r.chance(1, 2) ? await price(w, down ? -m : m) : down ? max(LO, pool.sqrtPrice - r.log(bits(pool.sqrtPrice))) : min(HI, pool.sqrtPrice + r.log(bits(pool.sqrtPrice)))
    const list = ticks.map(t => `${t.index}:${t.liquidityChange}:${+t.sign}`).join(',') || '-', map = [...tickmap.bitmap].map(([c, b]) => `${c}:${b}`).join(',') || '-'
    const n = await native(w, `simulate ${key.feeTier.fee} ${s} ${+down} ${amount} ${+byIn} ${limit} ${pool.liquidity} ${pool.sqrtPrice} ${pool.currentTickIndex} ${map} ${list}`)
    const args = [tickmap, key.feeTier, pool, ticks, down, amount, byIn, limit]
    const got = run(u.simulateInvariantSwap, ...args)
    const shape = v => [v.amountIn, v.amountOut, v.fee, v.startSqrtPrice, v.targetSqrtPrice, v.globalInsufficientLiquidity, v.maxSwapStepsReached, v.stateOutdated, v.crossedTicks.map(t => t.index)]
    const inner = a => a.replace(/^\[|\]$/g, '')
    if (n) {
      const want = [...n.slice(0, 5).map(BigInt), ...n.slice(5, 8).map(v => v === '1'), inner(n.slice(8).join('')).split(',').filter(Boolean).map(BigInt)]
      ensure(got.err === undefined, () => `simulateInvariantSwap(${show(args)}) throws ${String(got.err?.message ?? got.err)}`)
      const d = differ(shape(got.ret), want)
      ensure(!d, () => `simulateInvariantSwap(${show(args)}) is ${show(got.ret)}, expected ${show(want)}: ${d}`)
      for (const t of got.ret.crossedTicks) ensure(ticks.some(o => !differ(t, o)), () => `simulateInvariantSwap(${show(args)}) crosses ${show(t)}, which the pool does not have`)
      cov.hit(`simulate|${down}|${byIn}|${want[8].length}|${want.slice(5, 8).map(Number).join('')}|${bits(want[0]) >> 3}`, () => `${key.feeTier.fee}:${s} ${down ? 'down' : 'up'} ${amount} -> ${show(shape(got.ret))}`)
    } else ensure(got.err !== undefined, () => `simulateInvariantSwap(${show(args)}) answers ${show(got.ret)} where the SDK refuses`)
    // what is left after leaving out the ticks behind the price gives the same answer
    const ft = run(u.filterTicks, ticks, pool.currentTickIndex, down), fm = run(u.filterTickmap, tickmap, s, pool.currentTickIndex, down)
    if (!down || true) {
      ensure(ft.err === undefined && fm.err === undefined, () => `filtering fails: ${ft.err ?? fm.err}`)
      const on = t => down ? t.index <= pool.currentTickIndex : t.index >= pool.currentTickIndex
      let from = 0
      for (const t of ft.ret) { const i = ticks.findIndex((o, i) => i >= from && !differ(t, o)); ensure(i >= 0, () => `filterTicks(${show([ticks, pool.currentTickIndex, down])}) gives ${show(ft.ret)}, which is not a part of it`); from = i + 1 }
      for (const t of ticks) if (on(t)) ensure(ft.ret.some(o => !differ(o, t)), () => `filterTicks(${show([ticks, pool.currentTickIndex, down])}) leaves out tick ${t.index}, which a swap ${down ? 'down' : 'up'} can reach`)
      const here = (pool.currentTickIndex + TICK) / s / 64n
      for (const [c, b] of fm.ret.bitmap) ensure(tickmap.bitmap.get(c) === b, () => `filterTickmap gives chunk ${c} as ${b}, the map has ${tickmap.bitmap.get(c)}`)
      for (const [c] of tickmap.bitmap) if (down ? c <= here : c >= here) ensure(fm.ret.bitmap.has(c), () => `filterTickmap(${show([tickmap, s, pool.currentTickIndex, down])}) leaves out chunk ${c}, which a swap ${down ? 'down' : 'up'} can reach`)
      const again = run(u.simulateInvariantSwap, fm.ret, key.feeTier, pool, ft.ret, down, amount, byIn, limit)
      if (n) ensure(again.err === undefined && !differ(shape(again.ret), shape(got.ret)), () => `with filtered ticks ${show([ft.ret, fm.ret])} the swap ${show(args)} is ${show(again.ret ?? String(again.err))} instead of ${show(got.ret)}`)
      cov.hit(`filter|${down}|${ticks.length}|${ft.ret.length}|${fm.ret.bitmap.size}`, () => `${ticks.length} ticks and ${tickmap.bitmap.size} chunks, ${ft.ret.length} and ${fm.ret.bitmap.size} left`)
    }
  }
}
/// The tick below a price, by looking at prices.
async function tickOf (w, p, s) {
  const m = span(s) / s
  if (p < await price(w, -m * s)) return (-m - 1n) * s
  let [a, b] = [-m, m]
  while (a < b) { const c = (a + b + 1n) >> 1n; if (await price(w, c * s) <= p) a = c; else b = c - 1n }
  return a * s
}
export async function history (w, cov, i) {
  if (i < 4) constants(w, cov)
  for (let s = 0; s < w.steps; s++) {
    const op = await w.c.json('gen')
    await w.c.json(`call ${op.by} ${op.payload} ${op.value}`)
    for (let k = 0; k < 2; k++) await plain(w, cov)
    if (s % 3 === 2) { await w.refresh(); await state(w, cov) }
  }
}
