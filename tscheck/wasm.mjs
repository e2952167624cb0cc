// A small replacement for wasm-bindgen's generated glue: it loads the SDK crate compiled to wasm (not post-processed
// by the wasm-bindgen CLI, which this sandbox lacks), learns every signature from the descriptors in the module and
// gives its exported functions as JavaScript functions.
import fs from 'fs'

const T = ['I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'F32', 'F64', 'BOOLEAN', 'FUNCTION', 'CLOSURE', 'CACHED_STRING', 'STRING', 'REF', 'REFMUT', 'LONGREF', 'SLICE', 'VECTOR', 'EXTERNREF', 'NAMED_EXTERNREF', 'ENUM', 'STRING_ENUM', 'RUST_STRUCT', 'CHAR', 'OPTIONAL', 'RESULT', 'UNIT', 'CLAMPED', 'NONNULL']

function decodeType(d) {
  const t = T[d.shift()]
  const name = () => { let n = d.shift(), s = ''; while (n--) s += String.fromCharCode(d.shift()); return s }
  switch (t) {
    case 'REF': case 'REFMUT': case 'LONGREF': return { ...decodeType(d), ref: true }
    case 'OPTIONAL': return { t, of: decodeType(d) }
    case 'RESULT': return { t, of: decodeType(d) }
    case 'SLICE': case 'VECTOR': case 'CLAMPED': return { t, of: decodeType(d) }
    case 'NAMED_EXTERNREF': return { t: 'EXTERNREF', name: name().replace(/<.*/, '').replace('object', 'Object') }
    case 'ENUM': return { t, name: name(), hole: d.shift() }
    case 'RUST_STRUCT': return { t, name: name() }
    case 'FUNCTION': {
      d.shift()
      let n = d.shift(); const args = []
      while (n--) args.push(decodeType(d))
      return { t, args, ret: decodeType(d), inner: decodeType(d) }
    }
    default: return { t }
  }
}

export function load(path) {
  const mod = new WebAssembly.Module(fs.readFileSync(path))
  const heap = [...Array(128), undefined, null, true, false]; let free = []
  const counts = {}
  const put = v => { const i = free.length ? free.pop() : heap.length; heap[i] = { v }; return i }
  const at = i => i < 132 ? heap[i] : heap[i].v
  const drop = i => { if (i >= 132) { if (heap[i] === null) throw new Error('harness: double drop'); heap[i] = null; free.push(i) } }
  const take = i => { const v = at(i); drop(i); return v }
  const dv = () => new DataView(x.memory.buffer)
  const str = (p, n) => new TextDecoder().decode(new Uint8Array(x.memory.buffer, p >>> 0, n >>> 0))
  const putStr = s => { const b = new TextEncoder().encode(s); const p = x.__wbindgen_malloc(b.length, 1) >>> 0; new Uint8Array(x.memory.buffer, p, b.length).set(b); return [p, b.length] }
  let told = []
  const base = {
    __wbindgen_describe: v => { told.push(v >>> 0) },
    __wbindgen_object_clone_ref: i => put(at(i)),
    __wbindgen_object_drop_ref: drop,
    __wbindgen_string_new: (p, n) => put(str(p, n)),
    __wbindgen_number_new: put,
    __wbindgen_bigint_from_str: (p, n) => put(BigInt(str(p, n))),
    __wbindgen_bigint_from_i64: put,
    __wbindgen_bigint_from_u64: n => put(BigInt.asUintN(64, n)),
    __wbindgen_bigint_from_u128: (hi, lo) => put((BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo)),
    __wbindgen_bigint_from_i128: (hi, lo) => put((hi << 64n) | BigInt.asUintN(64, lo)),
    __wbindgen_is_null: i => +(at(i) === null),
    __wbindgen_is_undefined: i => +(at(i) === undefined),
    __wbindgen_is_symbol: i => +(typeof at(i) === 'symbol'),
    __wbindgen_is_object: i => +(typeof at(i) === 'object' && at(i) !== null),
    __wbindgen_is_array: i => +Array.isArray(at(i)),
    __wbindgen_is_function: i => +(typeof at(i) === 'function'),
    __wbindgen_is_string: i => +(typeof at(i) === 'string'),
    __wbindgen_is_bigint: i => +(typeof at(i) === 'bigint'),
    __wbindgen_is_falsy: i => +!at(i),
    __wbindgen_typeof: i => put(typeof at(i)),
    __wbindgen_in: (p, o) => +(at(p) in at(o)),
    __wbindgen_as_number: i => +at(i),
    __wbindgen_try_into_number: i => { try { return put(+at(i)) } catch (e) { return put(e) } },
    __wbindgen_neg: a => put(-at(a)), __wbindgen_bit_not: a => put(~at(a)), __wbindgen_not: a => +!at(a),
    __wbindgen_bit_and: (a, b) => put(at(a) & at(b)), __wbindgen_bit_or: (a, b) => put(at(a) | at(b)), __wbindgen_bit_xor: (a, b) => put(at(a) ^ at(b)),
    __wbindgen_shl: (a, b) => put(at(a) << at(b)), __wbindgen_shr: (a, b) => put(at(a) >> at(b)), __wbindgen_unsigned_shr: (a, b) => put(at(a) >>> at(b)),
    __wbindgen_add: (a, b) => put(at(a) + at(b)), __wbindgen_sub: (a, b) => put(at(a) - at(b)), __wbindgen_mul: (a, b) => put(at(a) * at(b)), __wbindgen_rem: (a, b) => put(at(a) % at(b)),
    __wbindgen_div: (a, b) => put(at(a) / at(b)), __wbindgen_pow: (a, b) => put(at(a) ** at(b)),
    __wbindgen_checked_div: (a, b) => { try { return put(at(a) / at(b)) } catch (e) { if (e instanceof RangeError) return put(e); throw e } },
    __wbindgen_lt: (a, b) => +(at(a) < at(b)), __wbindgen_le: (a, b) => +(at(a) <= at(b)), __wbindgen_gt: (a, b) => +(at(a) > at(b)), __wbindgen_ge: (a, b) => +(at(a) >= at(b)),
    __wbindgen_number_get: (r, i) => { const v = at(i), is = typeof v === 'number'; dv().setFloat64(r + 8, is ? v : 0, true); dv().setInt32(r, +is, true) },
    __wbindgen_boolean_get: i => { const v = at(i); return typeof v === 'boolean' ? +v : 2 },
    __wbindgen_string_get: (r, i) => { const v = at(i); const [p, n] = typeof v === 'string' ? putStr(v) : [0, 0]; dv().setInt32(r + 4, n, true); dv().setInt32(r, p, true) },
    __wbindgen_bigint_get_as_i64: (r, i) => { const v = at(i), is = typeof v === 'bigint'; dv().setBigInt64(r + 8, is ? BigInt.asIntN(64, v) : 0n, true); dv().setInt32(r, +is, true) },
    __wbindgen_debug_string: (r, i) => { const v = at(i); const [p, n] = putStr(typeof v === 'string' ? JSON.stringify(v) : String(v)); dv().setInt32(r + 4, n, true); dv().setInt32(r, p, true) },
    __wbindgen_throw: (p, n) => { throw new Error(str(p, n)) },
    __wbindgen_rethrow: i => { throw take(i) },
    __wbindgen_error_new: (p, n) => put(new Error(str(p, n))),
    __wbindgen_jsval_eq: (a, b) => +(at(a) === at(b)),
    __wbindgen_jsval_loose_eq: (a, b) => +(at(a) == at(b)), // eslint-disable-line eqeqeq
    __wbindgen_memory: () => put(x.memory),
    __wbindgen_array_new: () => put([]),
    __wbindgen_array_push: (a, v) => { at(a).push(take(v)) },
    __wbindgen_externref_table_grow: () => -1, __wbindgen_externref_table_set_null: () => {}
  }
  // JavaScript's own functions, told apart by name and signature
  const native = (name, sig) => {
    const self = sig.args[0]?.name, ret = sig.ret.of?.name ?? sig.ret.name
    const cls = { Array, Map, Object, Error, Uint8Array, Set, Uint32Array, BigUint64Array, Function }
    switch (name) {
      case 'get': return self === 'Map' ? (m, k) => m.get(k) : sig.args[1].t === 'U32' ? (a, i) => a[i] : (o, k) => Reflect.get(o, k)
      case 'set': return self === 'Map' ? (m, k, v) => m.set(k, v) : self === 'Uint8Array' ? (a, b, o) => a.set(b, o) : sig.args.length === 3 && sig.ret.t === 'BOOLEAN' ? (o, k, v) => Reflect.set(o, k, v) : (o, k, v) => { o[k] = v }
      case 'getwithrefkey': return (o, k) => o[k]
      case 'length': return a => a.length
      case 'size': return a => a.size
      case 'push': return (a, v) => a.push(v)
      case 'new': return (...a) => { if (!cls[ret]) throw new Error('harness: new ' + ret); return new cls[ret](...a) }
      case 'newwithlength': return n => new cls[ret](n)
      case 'BigInt': return v => BigInt(v)
      case 'next': return self?.includes('Iterator') ? i => i.next() : i => i.next
      case 'done': return i => i.done
      case 'value': return i => i.value
      case 'iterator': return () => Symbol.iterator
      case 'call': return (f, t, ...a) => f.call(t, ...a)
      case 'isArray': return v => Array.isArray(v)
      case 'isSafeInteger': return v => Number.isSafeInteger(v)
      case 'entries': return self === 'Map' ? m => m.entries() : o => Object.entries(o)
      case 'keys': return self === 'Map' ? m => m.keys() : o => Object.keys(o)
      case 'buffer': return m => m.buffer
      case 'toString': return (v, r) => v.toString(r)
      case 'asIntN': return (b, v) => BigInt.asIntN(b, v)
      case 'asUintN': return (b, v) => BigInt.asUintN(b, v)
      case 'stack': return e => e.stack
      case 'error': case 'log': return () => {}
    }
    if (name.startsWith('instanceof_')) { const c = globalThis[name.slice(11)]; return v => v instanceof c }
    return () => { throw new Error('harness: imported function ' + name + ' is not known') }
  }
  const lower = (ty, v) => { // JavaScript value -> what the import returns
    switch (ty.t) {
      case 'EXTERNREF': return put(v)
      case 'BOOLEAN': return +!!v
      case 'UNIT': return undefined
      case 'RESULT': return lower(ty.of, v)
      case 'U32': case 'I32': case 'U16': case 'I16': case 'U8': case 'I8': case 'F64': case 'F32': return v
      default: throw new Error('harness: return type ' + ty.t)
    }
  }
  const imports = {}
  const lazy = {}
  for (const i of WebAssembly.Module.imports(mod)) {
    imports[i.module] ??= {}
    const m = /^__wbg_(.*)_[0-9a-f]{16}$/.exec(i.name)
    if (m) {
      imports[i.module][i.name] = (...raw) => {
        const { sig, f } = (lazy[i.name] ??= (s => ({ sig: s, f: native(m[1], s) }))(describe('__wbindgen_describe_' + i.name)))
        const args = []
        for (const a of sig.args) {
          const v = raw.shift()
          if (a.t === 'EXTERNREF') args.push(a.ref ? at(v) : take(v))
          else if (a.t === 'STRING') { const n = raw.shift(); args.push(str(v, n)); if (!a.ref) x.__wbindgen_free(v, n, 1) }
          else if (a.t === 'U32') args.push(v >>> 0)
          else if (a.t === 'BOOLEAN') args.push(!!v)
          else if (['I32', 'F64', 'F32', 'I16', 'U16', 'U8', 'I8'].includes(a.t)) args.push(v)
          else throw new Error('harness: argument type ' + a.t)
        }
        try { return lower(sig.ret, f(...args)) } catch (e) {
          if (/^harness/.test(e.message)) throw e
          x.__wbindgen_exn_store(put(e)); return 0
        }
      }
    } else imports[i.module][i.name] = base[i.name] ?? (() => { throw new Error('harness: intrinsic ' + i.name + ' is not known') })
  }
  let x = new WebAssembly.Instance(mod, imports).exports
  const describe = n => { if (!x[n]) return { t: 'FUNCTION', args: [{ t: 'EXTERNREF', ref: true }], ret: { t: 'BOOLEAN' } }; const was = told; told = []; x[n](); const d = told; told = was; return decodeType([...d]) }
  const fresh = () => { x = new WebAssembly.Instance(mod, imports).exports; heap.length = 132; free = [] }
  const out = {}
  for (const n of Object.keys(x)) {
    if (n.startsWith('__wbindgen_describe_') && !n.startsWith('__wbindgen_describe___wbg') ) {
      const name = n.slice(20)
      if (!(name in x)) continue
      const sig = describe(n)
      const f = (...a) => {
        counts[name] = (counts[name] ?? 0) + 1
        const pass = sig.args.map((ty, k) => { if (ty.t !== 'EXTERNREF') throw new Error('harness: parameter type ' + ty.t); return put(a[k]) })
        try {
          if (sig.ret.t === 'RESULT') {
            const r = x.__wbindgen_malloc(16, 8) >>> 0
            x[name](r, ...pass)
            const d = dv(), [v, e, bad] = [d.getUint32(r, true), d.getUint32(r + 4, true), d.getUint32(r + 8, true)]
            x.__wbindgen_free(r, 16, 8)
            if (bad) throw take(e)
            return take(v)
          }
          const v = x[name](...pass)
          return sig.ret.t === 'EXTERNREF' ? take(v) : sig.ret.t === 'BOOLEAN' ? !!v : sig.ret.t === 'U32' ? v >>> 0 : sig.ret.t === 'UNIT' ? undefined : v
        } catch (e) {
          if (e instanceof WebAssembly.RuntimeError) { fresh(); throw new Error('the wasm module trapped: ' + e.message) }
          throw e
        }
      }
      out[name] = f
    }
  }
  return { exports: out, counts, live: () => heap.length - 132 - free.length, sigs: n => describe(n) }
}
