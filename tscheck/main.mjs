// main.mjs run --prop P --tier T --seed N --out DIR --known FILE --target DIR --sdk DIR [--n HISTORIES] | replay FILE ...
import fs from 'fs'
import { fork } from 'child_process'
import { bundle, errors } from './bundle.mjs'
import { load } from './wasm.mjs'
import { Violation, Harness, Rng, mix, Contract, Lines, Cover, show } from './lib.mjs'
import { World } from './world.mjs'

const arg = (n, d) => { const i = process.argv.indexOf('--' + n); return i < 0 ? d : process.argv[i + 1] }
const target = arg('target', '/verif/target'), sdk = arg('sdk', '/repo/sdk')
const wasm = `${target}/sdkwasm/wasm32-unknown-unknown/release/sdkwasm.wasm`
const PLANS = { C34: { quick: 260, thorough: 4000, file: './client.mjs' }, C35: { quick: 300, thorough: 12000, file: './helpers.mjs' } }
/// A promise that nobody waited for and that failed.
let stray = null
const RULE = 'a case is one call of the TypeScript client judged by the monitor (what it sent, returned, or computed, against the contract executed beside it or exact arithmetic); a case counts as distinct and non-trivial when its signature (which function, how it ended, magnitude classes of what was compared) had not been seen before'

async function setting (file) {
  const w = load(wasm)
  globalThis.__sdkwasm = { ...w.exports, InvariantError: errors(sdk) }
  const m = await import(file)
  return { m, w }
}
async function one (env, prop, seed, i, cov) {
  const rng = new Rng(mix(seed, prop, i))
  const log = []
  stray = null
  try {
    const w = new World(env.m, env.contract, rng, rng.pick([0n, 1n, 10n, 1000n, 10n ** 12n]))
    w.wasm = env.w; w.native = env.native; w.logs = log
    await w.start(rng.next() & 0xffffffffn)
    await env.mod.history(w, cov, i)
    await new Promise(ok => setImmediate(ok))
    if (stray) throw new Violation('the client leaves a rejection unhandled: ' + stray)
    return null
  } catch (e) {
    if (e instanceof Harness) throw e
    if (e instanceof Violation) return { i, msg: e.message, log }
    if (/^harness/.test(e?.message ?? '')) throw e
    return { i, msg: 'the client or its monitor failed: ' + (e?.stack ?? show(e)).slice(0, 1500), log }
  }
}
process.on('unhandledRejection', e => { if (e instanceof Harness) { console.error(e.stack); process.exit(2) } stray ??= String(e?.stack ?? e).slice(0, 600) })
async function worker () {
  const prop = arg('prop'), seed = arg('seed')
  let env
  try { env = await setting(arg('bundle')) } catch (e) {
    if (/^harness/.test(e?.message ?? '')) throw e
    process.send({ broken: 'the client cannot be loaded: ' + (e?.stack ?? e), load: true }); process.on('disconnect', () => process.exit(0)); return
  }
  env.mod = await import(PLANS[prop].file)
  env.contract = new Contract(target)
  if (fs.existsSync(`${target}/sdkcheck/release/sdkcheck`)) env.native = new Lines(`${target}/sdkcheck/release/sdkcheck`, [])
  process.on('disconnect', () => process.exit(0))
  process.on('message', async i => {
    const cov = new Cover()
    try { const v = await one(env, prop, seed, i, cov); process.send({ i, v, eval: cov.eval, sigs: [...cov.sigs], samples: cov.samples, counts: cov.counts, wasm: env.w.counts }) } catch (e) { process.send({ i, broken: String(e?.stack ?? e) }) }
  })
  process.send({ ready: true })
}
async function run () {
  const prop = arg('prop'), tier = arg('tier', 'quick'), seed = arg('seed', '1'), out = arg('out', '/verif/evidence')
  const n = Number(arg('n', 0)) || PLANS[prop][tier]
  const t0 = Date.now()
  fs.mkdirSync(out, { recursive: true }); fs.mkdirSync(`${target}/tscheck`, { recursive: true })
  const file = `${target}/tscheck/${prop}-${process.pid}.mjs`
  try { await bundle(sdk, file) } catch (e) { console.error('the client does not build: ' + (e.message ?? e)); process.exit(3) }
  const total = new Cover(), wasmCounts = {}
  const found = []
  let next = 0, done = 0, broken = null
  const end = t0 + (tier === 'quick' ? 420e3 : 780e3)
  await new Promise(resolve => {
    let live = 0
    const start = () => {
      const p = fork(process.argv[1], ['worker', '--prop', prop, '--seed', seed, '--bundle', file, '--target', target, '--sdk', sdk], { serialization: 'json' })
      live++
      let at = null, since = Date.now()
      const give = () => { if (next < n && found.length < 9 && !broken && Date.now() < end) { at = next++; since = Date.now(); p.send(at) } else { at = null; p.disconnect() } }
      const watch = setInterval(() => { if (at !== null && Date.now() - since > 150e3) { found.push({ i: at, msg: 'no answer for 150 s', log: [] }); at = null; p.kill('SIGKILL') } }, 1000)
      p.on('message', m => {
        if (m.ready) return give()
        if (m.load) { found.push({ i: 0, msg: m.broken.slice(0, 1500), log: [] }); at = null; p.disconnect(); return }
        if (m.broken) { broken ??= m.broken; return give() }
        done++
        total.eval += m.eval
        for (const s of m.sigs) total.sigs.add(s)
        for (const [k, v] of Object.entries(m.counts)) total.counts[k] = (total.counts[k] ?? 0) + v
        for (const s of m.samples) if (total.samples.length < 24 && total.samples.every(t => t.split(' ')[0] !== s.split(' ')[0] || total.samples.length > 16)) total.samples.push(s)
        wasmCounts[p.pid] = m.wasm
        if (m.v) found.push(m.v)
        give()
      })
      p.on('exit', c => { clearInterval(watch); live--; if (at !== null) broken ??= `a worker ended with ${c}`; if (!live) resolve() })
    }
    for (let k = 0; k < 8; k++) start()
  })
  fs.rmSync(file, { force: true })
  found.sort((a, b) => a.i - b.i)
  const known = (fs.existsSync(arg('known', '')) ? fs.readFileSync(arg('known'), 'utf8') : '').split('\n').map(l => /^known: property=(\S+) (.*?) :: (.*)$/.exec(l)).filter(m => m && m[1] === prop)
  for (const k of known) console.log(`KNOWN-FINDING: property=${prop} ${k[3]}`)
  const fresh = found.filter(v => !known.some(k => v.msg.startsWith(k[2])))
  fresh.slice(0, 3).forEach((v, k) => {
    const path = `${out}/${prop}-violation-${k + 1}.txt`
    fs.writeFileSync(path, `prop=${prop}\ntier=${tier}\nseed=${seed}\nhistory=${v.i}\nviolation: ${v.msg}\n\nreplay with: /verif/check.sh replay ${path}\n\n${v.log.join('\n')}\n`)
    console.log(`VIOLATION property=${prop} replay=${path}\n  history ${v.i}: ${v.msg.slice(0, 700)}`)
  })
  const wc = {}
  for (const c of Object.values(wasmCounts)) for (const [k, v] of Object.entries(c)) wc[k] = (wc[k] ?? 0) + v
  const wall = (Date.now() - t0) / 1000
  fs.writeFileSync(`${out}/${prop}.json`, JSON.stringify({ property: prop, tier, seed: Number(seed), level: 'exploration', coverage: { evaluations: total.eval, distinct_nontrivial: total.sigs.size, rule: RULE, samples: total.samples, histories: done, cases_by_kind: total.counts, sdk_wasm_calls: wc }, wall_s: wall, violations: fresh.length }) + '\n')
  console.log(`${prop}: ${done} histories, ${total.eval} cases, ${total.sigs.size} distinct, ${fresh.length} violations, ${wall.toFixed(1)}s`)
  if (fresh.length) process.exit(1)
  if (broken) { console.error('cannot run: ' + broken); process.exit(2) }
  if (!total.eval) { console.error('nothing was observed'); process.exit(2) }
  process.exit(0)
}
async function replay () {
  const text = fs.readFileSync(process.argv[3], 'utf8')
  const get = k => new RegExp(`^${k}=(.*)$`, 'm').exec(text)[1]
  const prop = get('prop')
  const file = `${target}/tscheck/replay-${process.pid}.mjs`
  fs.mkdirSync(`${target}/tscheck`, { recursive: true })
  await bundle(sdk, file)
  let env
  try { env = await setting(file) } catch (e) { console.log('VIOLATION: the client cannot be loaded: ' + (e?.stack ?? e)); process.exit(1) }
  env.mod = await import(PLANS[prop].file)
  env.contract = new Contract(target)
  if (fs.existsSync(`${target}/sdkcheck/release/sdkcheck`)) env.native = new Lines(`${target}/sdkcheck/release/sdkcheck`, [])
  const v = await one(env, prop, get('seed'), Number(get('history')), new Cover())
  fs.rmSync(file, { force: true })
  if (v) { console.log(v.log.join('\n')); console.log('VIOLATION: ' + v.msg); process.exit(1) }
  console.log(`history ${get('history')} of ${prop}: no violation`)
  process.exit(0)
}
const job = { run, worker, replay }[process.argv[2]]
if (!job) { console.error('usage: main.mjs run|replay'); process.exit(2) }
job().catch(e => { console.error(e?.stack ?? e); process.exit(2) })
