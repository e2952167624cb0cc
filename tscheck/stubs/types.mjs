// A small SCALE codec with the parts of @polkadot/types the client uses. Numbers are read and shown the way that
// library does: as JSON, integers of up to 52 bits in types of up to 128 bits become numbers and the others hex.
const bytes = h => { if (!/^0x([0-9a-fA-F]{2})*$/.test(h)) throw new Error('not a hex string: ' + h); const o = new Uint8Array(h.length / 2 - 1); for (let i = 0; i < o.length; i++) o[i] = parseInt(h.slice(2 + 2 * i, 4 + 2 * i), 16); return o }
const hex = b => '0x' + Array.from(b, x => x.toString(16).padStart(2, '0')).join('')
const isRaw = v => v instanceof Uint8Array || (typeof v === 'string' && v.startsWith('0x'))
const raw = v => v instanceof Uint8Array ? v : bytes(v)
class Reader {
  constructor (b) { this.b = b; this.i = 0 }
  take (n) { if (this.i + n > this.b.length) throw new Error('createType: not enough bytes'); const s = this.b.subarray(this.i, this.i + n); this.i += n; return s }
  compact () {
    const f = this.b[this.i]
    if (f === undefined) return 0 // as polkadot reads an absent tail
    const le = b => b.reduceRight((a, x) => a * 256 + x, 0)
    switch (f & 3) { case 0: this.i++; return f >> 2; case 1: return le(this.take(2)) >> 2; case 2: return le(this.take(4)) >>> 2; default: throw new Error('createType: compact too large') }
  }
}
const compact = n => n < 64 ? [n << 2] : n < 16384 ? [(n << 2 | 1) & 255, n >> 6] : [((n << 2) | 2) & 255, (n >> 6) & 255, (n >> 14) & 255, (n >> 22) & 255]
const cat = l => { const o = new Uint8Array(l.reduce((a, x) => a + x.length, 0)); let i = 0; for (const x of l) { o.set(x, i); i += x.length } return o }

class Codec {
  constructor (v) { this.v = v }
  toHex () { return hex(this.toU8a()) }
  toString () { const j = this.toJSON(); return typeof j === 'string' ? j : JSON.stringify(j) }
  toHuman () { return this.toJSON() }
  toPrimitive () { return this.toJSON() }
  eq (o) { return JSON.stringify(this.toJSON()) === JSON.stringify(o?.toJSON ? o.toJSON() : o) }
}
function split (s) {
  const out = []; let depth = 0; let at = 0
  for (let i = 0; i < s.length; i++) {
    if ('([{<'.includes(s[i])) depth++
    else if (')]}>'.includes(s[i])) depth--
    else if (s[i] === ',' && depth === 0) { out.push(s.slice(at, i)); at = i + 1 }
  }
  if (depth !== 0) throw new Error('unable to parse type ' + s)
  if (s.slice(at).trim()) out.push(s.slice(at))
  return out.map(x => x.trim())
}
export class TypeRegistry {
  constructor () { this.known = new Map(); this.cache = new Map() }
  setKnownTypes ({ types } = {}) { if (types) this.register(types) }
  register (types) { if (typeof types === 'object') for (const [k, v] of Object.entries(types)) this.known.set(k, v); this.cache.clear() }
  createType (t, ...args) {
    const c = this.type(t), v = args[0]
    return isRaw(v) && !c.literal ? c.read(new Reader(raw(v))) : c.from(v)
  }
  type (t) {
    const k = typeof t === 'string' ? t.trim() : JSON.stringify(t)
    let c = this.cache.get(k)
    if (!c) { c = this.make(typeof t === 'string' ? k : t); this.cache.set(k, c) }
    return c
  }
  make (t) {
    if (typeof t === 'object') {
      if (t._enum) return this.enumeration(t._enum)
      return this.struct(t)
    }
    if (t.startsWith('{')) return this.make(JSON.parse(t))
    if (t.startsWith('(')) {
      if (!t.endsWith(')')) throw new Error('unable to parse type ' + t)
      const p = split(t.slice(1, -1))
      return p.length === 1 ? this.type(p[0]) : this.tuple(p)
    }
    let m
    if ((m = /^\[\s*u8\s*;\s*(\d+)\s*\]$/.exec(t))) return this.fixed(+m[1])
    if ((m = /^Vec<(.*)>$/.exec(t))) return this.vec(m[1])
    if ((m = /^Option<(.*)>$/.exec(t))) return this.option(m[1])
    if ((m = /^Result<(.*)>$/.exec(t))) { const [a, b] = split(m[1]); return this.result(a, b) }
    if ((m = /^([uUiI])(8|16|32|64|128|256)$/.exec(t))) return this.int(+m[2], m[1].toLowerCase() === 'i')
    if (t === 'bool') return this.bool()
    if (t === 'String' || t === 'Text') return this.text()
    if (t === 'Null') return this.nul()
    if (this.known.has(t)) return this.type(this.known.get(t))
    throw new Error('DoNotConstruct: Cannot construct unknown type ' + t)
  }
  int (bits, signed) {
    const n = bits / 8
    class Int extends Codec {
      toU8a () { const o = new Uint8Array(n); let v = BigInt.asUintN(bits, this.v); for (let i = 0; i < n; i++) { o[i] = Number(v & 255n); v >>= 8n } return o }
      toJSON () { const a = this.v < 0n ? -this.v : this.v; return bits > 128 || a.toString(2).length > 52 ? '0x' + BigInt.asUintN(bits, this.v).toString(16).padStart(bits / 4, '0') : Number(this.v) }
      toNumber () { if (this.v > 9007199254740991n) throw new Error('Number can only safely store up to 53 bits'); return Number(this.v) }
      toBigInt () { return this.v }
      toBn () { return this.v }
      valueOf () { return this.v }
      toString () { return this.v.toString() }
    }
    const make = v => {
      const size = v < 0n ? (-v).toString(2).length : v === 0n ? 0 : v.toString(2).length
      if (v < 0n && !signed) throw new Error(`${signed ? 'i' : 'u'}${bits}: Negative number passed to unsigned type`)
      if (size > (signed ? bits - 1 : bits) && !(signed && v === -(1n << BigInt(bits - 1)))) throw new Error(`${signed ? 'i' : 'u'}${bits}: Input too large. Found input with ${size} bits, expected ${bits}`)
      return new Int(v)
    }
    return {
      literal: false,
      read: r => { const b = r.take(n); let v = 0n; for (let i = n; i-- > 0;) v = v << 8n | BigInt(b[i]); return new Int(signed ? BigInt.asIntN(bits, v) : v) },
      from: v => {
        if (v === undefined || v === null) return make(0n)
        if (v instanceof Codec) return make(BigInt(v.v))
        if (v instanceof Uint8Array) { let x = 0n; for (let i = v.length; i-- > 0;) x = x << 8n | BigInt(v[i]); return make(x) }
        if (typeof v === 'bigint') return make(v)
        if (typeof v === 'number') { if (!Number.isInteger(v)) throw new Error('Unable to create number from ' + v); return make(BigInt(v)) }
        if (typeof v === 'string') { if (!/^(-?\d+|0x[0-9a-fA-F]+)$/.test(v)) throw new Error('String should not contain decimal points or scientific notation: ' + v); return make(BigInt(v)) }
        if (Array.isArray(v) && v.length === 1) return this.type(`${signed ? 'i' : 'u'}${bits}`).from(v[0])
        throw new Error('Unable to create BN from unknown type ' + typeof v)
      }
    }
  }
  bool () {
    class Bool extends Codec { toU8a () { return new Uint8Array([+this.v]) } toJSON () { return this.v } get isTrue () { return this.v } get isFalse () { return !this.v } valueOf () { return this.v } }
    return { read: r => new Bool(r.take(1)[0] === 1), from: v => new Bool(v instanceof Codec ? !!v.v : !!v) }
  }
  text () {
    class Text extends Codec { toU8a () { const b = new TextEncoder().encode(this.v); return cat([compact(b.length), b]) } toJSON () { return this.v } toString () { return this.v } }
    return { read: r => new Text(new TextDecoder().decode(r.take(r.compact()))), from: v => new Text(v === undefined || v === null ? '' : String(v)) }
  }
  nul () {
    class Null extends Codec { toU8a () { return new Uint8Array() } toJSON () { return null } }
    return { read: () => new Null(null), from: () => new Null(null) }
  }
  fixed (n) {
    class Fixed extends Codec { toU8a () { return this.v } toJSON () { return hex(this.v) } toString () { return hex(this.v) } }
    const make = b => { if (b.length !== n) throw new Error(`Expected input with ${n} bytes, found ${b.length} bytes`); return new Fixed(Uint8Array.from(b)) }
    return { literal: true, read: r => make(r.take(n)), from: v => v === undefined || v === null ? make(new Uint8Array(n)) : v instanceof Codec ? make(v.toU8a()) : Array.isArray(v) ? make(v) : make(raw(v)) }
  }
  many (parts) {
    const read = r => parts.map(p => p.read(r))
    return { read }
  }
  tuple (ts) {
    const parts = ts.map(t => this.type(t))
    class Tuple extends Codec { constructor (v) { super(v); v.forEach((x, i) => { this[i] = x }) } toU8a () { return cat(this.v.map(x => x.toU8a())) } toJSON () { return this.v.map(x => x.toJSON()) } get length () { return this.v.length } * [Symbol.iterator] () { yield * this.v } }
    return { read: r => new Tuple(parts.map(p => p.read(r))), from: v => {
      if (isRaw(v)) { const r = new Reader(raw(v)); return new Tuple(parts.map(p => p.read(r))) }
      if (v instanceof Codec) v = v.v
      if (v !== undefined && v !== null && !Array.isArray(v)) throw new Error('Expected array input to Tuple decoding, found ' + typeof v)
      return new Tuple(parts.map((p, i) => p.from(v?.[i])))
    } }
  }
  struct (def) {
    const names = Object.keys(def); let parts
    const get = () => (parts ??= names.map(n => this.type(def[n])))
    class Struct extends Codec { constructor (v) { super(v); names.forEach((n, i) => { this[n] = v[i] }) } toU8a () { return cat(this.v.map(x => x.toU8a())) } toJSON () { return Object.fromEntries(names.map((n, i) => [n, this.v[i].toJSON()])) } get (n) { return this.v[names.indexOf(n)] } }
    return { read: r => new Struct(get().map(p => p.read(r))), from: v => {
      if (isRaw(v)) { const r = new Reader(raw(v)); return new Struct(get().map(p => p.read(r))) }
      if (v instanceof Codec) v = Object.fromEntries(names.map((n, i) => [n, v.v[i]]))
      if (Array.isArray(v)) return new Struct(get().map((p, i) => p.from(v[i])))
      if (v instanceof Map) v = Object.fromEntries(v)
      if (v !== undefined && v !== null && typeof v !== 'object') throw new Error('Struct: cannot decode type ' + typeof v)
      return new Struct(get().map((p, i) => p.from(v?.[names[i]])))
    } }
  }
  vec (t) {
    const p = this.type(t)
    class Vec extends Codec { toU8a () { return cat([compact(this.v.length), ...this.v.map(x => x.toU8a())]) } toJSON () { return this.v.map(x => x.toJSON()) } get length () { return this.v.length } * [Symbol.iterator] () { yield * this.v } map (f) { return this.v.map(f) } }
    const read = r => { const n = r.compact(); const o = []; for (let i = 0; i < n; i++) o.push(p.read(r)); return new Vec(o) }
    return { read, from: v => {
      if (isRaw(v)) return read(new Reader(raw(v)))
      if (v === undefined || v === null) return new Vec([])
      if (v instanceof Codec) v = v.v
      if (!Array.isArray(v)) throw new Error('Expected array/hex input to Vec<*> decoding, found ' + typeof v)
      return new Vec(v.map(x => p.from(x)))
    } }
  }
  option (t) {
    const p = this.type(t)
    class Option extends Codec { toU8a () { return this.v === null ? new Uint8Array([0]) : cat([[1], this.v.toU8a()]) } toJSON () { return this.v === null ? null : this.v.toJSON() } get isSome () { return this.v !== null } get isNone () { return this.v === null } unwrap () { if (this.v === null) throw new Error('Option: unwrapping a None value'); return this.v } }
    return { read: r => new Option(r.take(1)[0] ? p.read(r) : null), from: v => new Option(v === undefined || v === null || (v instanceof Option && v.v === null) ? null : p.from(v instanceof Option ? v.v : v)) }
  }
  result (a, b) {
    const ok = this.type(a), err = this.type(b)
    class Result extends Codec { toU8a () { return cat([[this.v.ok ? 0 : 1], (this.v.ok ?? this.v.err).toU8a()]) } toJSON () { return this.v.ok ? { ok: this.v.ok.toJSON() } : { err: this.v.err.toJSON() } } get isOk () { return !!this.v.ok } get isErr () { return !this.v.ok } get asOk () { return this.v.ok } get asErr () { return this.v.err } }
    return { read: r => { switch (r.take(1)[0]) { case 0: return new Result({ ok: ok.read(r) }); case 1: return new Result({ err: err.read(r) }); default: throw new Error('Unable to create Enum') } },
      from: v => 'ok' in v ? new Result({ ok: ok.from(v.ok) }) : new Result({ err: err.from(v.err) }) }
  }
  enumeration (e) {
    if (!Array.isArray(e)) throw new Error('enum with data')
    class Enum extends Codec { toU8a () { return new Uint8Array([this.v]) } toJSON () { return e[this.v] } toString () { return e[this.v] } toNumber () { return this.v } get type () { return e[this.v] } get index () { return this.v } }
    const make = i => { if (!(i >= 0 && i < e.length)) throw new Error('Unable to create Enum via index ' + i); return new Enum(i) }
    return { read: r => make(r.take(1)[0]), from: v => make(typeof v === 'number' ? v : e.findIndex(x => x.toLowerCase() === String(v).toLowerCase())) }
  }
}
export { bytes, hex }
