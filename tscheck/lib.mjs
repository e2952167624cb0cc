// What both harnesses share: a generator of random numbers, the contract behind a pipe, comparison.
import { spawn } from 'child_process'
import readline from 'readline'

export class Violation extends Error {}
export class Harness extends Error {}
export const ensure = (c, m) => { if (!c) throw new Violation(typeof m === 'function' ? m() : m) }

const M = (1n << 64n) - 1n
export class Rng {
  constructor (seed) { this.s = (BigInt(seed) ^ 0x9e3779b97f4a7c15n) & M; this.next(); this.next() }
  next () { let x = this.s = (this.s + 0x9e3779b97f4a7c15n) & M; x = ((x ^ (x >> 30n)) * 0xbf58476d1ce4e5b9n) & M; x = ((x ^ (x >> 27n)) * 0x94d049bb133111ebn) & M; return x ^ (x >> 31n) }
  below (n) { return Number(this.next() % BigInt(n)) }
  range (a, b) { return a + this.below(b - a + 1) }
  chance (a, b) { return this.below(b) < a }
  pick (l) { return l[this.below(l.length)] }
  big (bits) { let v = 0n; for (let i = 0; i < bits; i += 64) v = v << 64n | this.next(); return v & ((1n << BigInt(bits)) - 1n) }
  log (bits) { const b = this.below(bits + 1); return b === 0 ? 0n : this.big(b) | 1n << BigInt(b - 1) }
}
export const mix = (seed, prop, i) => { let h = 0xcbf29ce484222325n ^ (BigInt(seed) * 0x9e3779b97f4a7c15n & M); for (const c of prop) h = (h ^ BigInt(c.charCodeAt(0))) * 0x100000001b3n & M; return ((h ^ (BigInt(i) * 0xd1290b268f2b1f4dn & M)) * 0x2545f4914f6cdd1dn & M) | 1n }

export const show = v => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x instanceof Map ? { map: [...x] } : x instanceof Uint8Array ? 'bytes ' + toHex(x) : x)
export const toHex = b => typeof b === 'string' ? b : '0x' + Array.from(b, x => x.toString(16).padStart(2, '0')).join('')
export const toBytes = h => Uint8Array.from(h.slice(2).match(/../g) ?? [], x => parseInt(x, 16))
/// Where two values differ, or null.
export function differ (a, b, at = '') {
  if (a instanceof Map && b instanceof Map) {
    if (a.size !== b.size) return `${at}: ${a.size} entries instead of ${b.size}`
    for (const [k, v] of b) { if (!a.has(k)) return `${at}: no entry for ${show(k)}`; const d = differ(a.get(k), v, `${at}[${show(k)}]`); if (d) return d }
    return null
  }
  if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object') return a === b ? null : `${at || 'value'}: ${show(a)} (${typeof a}) instead of ${show(b)} (${typeof b})`
  if (Array.isArray(a) !== Array.isArray(b)) return `${at}: ${show(a)} instead of ${show(b)}`
  const ka = Object.keys(a), kb = Object.keys(b)
  for (const k of kb) { if (!(k in a)) return `${at}.${k}: absent`; const d = differ(a[k], b[k], `${at}.${k}`); if (d) return d }
  for (const k of ka) if (!(k in b)) return `${at}.${k}: unexpected`
  return null
}
const revive = (k, v) => typeof v === 'string' && /^-?\d+n$/.test(v) ? BigInt(v.slice(0, -1)) : v
/// A process that answers one line per line.
export class Lines {
  constructor (cmd, args) {
    this.p = spawn(cmd, args, { stdio: ['pipe', 'pipe', 'inherit'] })
    this.wait = []
    readline.createInterface({ input: this.p.stdout }).on('line', l => this.wait.shift()?.ok(l))
    this.p.on('exit', c => { this.dead = true; for (const w of this.wait) w.bad(new Harness(`${cmd} ended with ${c}`)) })
    this.p.on('error', e => { this.dead = true; for (const w of this.wait) w.bad(new Harness(String(e))) })
  }
  ask (l) { if (this.dead) return Promise.reject(new Harness('the backend is gone')); return new Promise((ok, bad) => { this.wait.push({ ok, bad }); this.p.stdin.write(l + '\n') }) }
}
export class Contract extends Lines {
  constructor (target) { super(`${target}/monitor/release/monitor`, ['serve', '--target', target]) }
  async json (l) { const a = JSON.parse(await this.ask(l), revive); return a }
}
export class Cover {
  constructor () { this.eval = 0; this.sigs = new Set(); this.samples = []; this.counts = {} }
  hit (sig, sample) { this.eval++; const k = sig.split('|')[0]; this.counts[k] = (this.counts[k] ?? 0) + 1; if (!this.sigs.has(sig)) { this.sigs.add(sig); if (sample && this.samples.length < 40 && this.sigs.size % 7 === 1) this.samples.push((k + ': ' + sample()).slice(0, 400)) } }
}
export const bits = v => { const a = v < 0n ? -v : v; return a === 0n ? 0 : a.toString(2).length }
export const isqrt = n => { if (n < 2n) return n; let x = 1n << BigInt(Math.ceil(bits(n) / 2)); for (;;) { const y = (x + n / x) >> 1n; if (y >= x) return x; x = y } }
