import { createRequire } from 'module'
const require = createRequire('/opt/veriftools/node/node_modules/')
/// The exports of a file of the client; `globalThis.wasm` holds the functions of its wasm module, `globalThis.pkg` those of other packages.
export async function client (file) {
  await require('esbuild').build({
    entryPoints: ['/repo/sdk/src/' + file], bundle: true, format: 'esm', platform: 'node', outfile: './' + file + '.mjs', logLevel: 'silent', tsconfigRaw: '{}',
    plugins: [{ name: 'absent', setup (b) {
      b.onResolve({ filter: /^[^./]/ }, a => ({ path: a.path, namespace: 'absent' }))
      b.onLoad({ filter: /.*/, namespace: 'absent' }, a => ({ loader: 'js', contents: `
        class Any { constructor () { } }
        module.exports = Object.create(new Proxy({}, { get (_, k) {
          if (typeof k !== 'string' || k === '__esModule' || k === 'then') return undefined
          if (globalThis.pkg?.[k]) return globalThis.pkg[k]
          if (${JSON.stringify(a.path.includes('wasm'))}) return (...x) => { const f = globalThis.wasm?.[k]; return f ? f(...x) : 0n }
          return Any
        } }))` }))
    } }]
  })
  return import(process.cwd() + '/' + file + '.mjs')
}
export const check = (ok, what) => { if (!ok) { console.log('WRONG: ' + what); process.exit(1) } }
