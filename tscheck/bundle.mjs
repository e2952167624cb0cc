// Bundles the client's TypeScript as it is in the repository, with the chain libraries replaced by stand-ins.
import { createRequire } from 'module'
import path from 'path'
import fs from 'fs'
const here = path.dirname(new URL(import.meta.url).pathname)
const require = createRequire('/opt/veriftools/node/node_modules/')
export async function bundle (sdk, out) {
  const esbuild = require('esbuild')
  const stub = { '@gear-js/api': 'gear.mjs', '@polkadot/types': 'types.mjs', 'sails-js': 'sails.mjs' }
  const own = ['index', 'invariant', 'utils', 'erc20', 'wasm-serializer', 'computed-consts', 'consts', 'schema', 'invariant-contract', 'network']
  const entry = own.filter(f => fs.existsSync(`${sdk}/src/${f}.ts`)).map(f => `export * as ${f.replace(/-./g, m => m[1].toUpperCase())} from ${JSON.stringify(`${sdk}/src/${f}.ts`)}`).join('\n') +
    `\nexport * as gear from ${JSON.stringify(here + '/stubs/gear.mjs')}\nexport * as types from ${JSON.stringify(here + '/stubs/types.mjs')}\n`
  await esbuild.build({
    stdin: { contents: entry, resolveDir: here, loader: 'ts' }, bundle: true, format: 'esm', platform: 'node', target: 'node20', outfile: out, logLevel: 'silent', tsconfigRaw: '{}',
    plugins: [{
      name: 'stand-ins',
      setup (b) {
        b.onResolve({ filter: /^@invariant-labs\/vara-sdk-wasm/ }, () => ({ path: 'sdkwasm', namespace: 'sdkwasm' }))
        b.onLoad({ filter: /.*/, namespace: 'sdkwasm' }, () => ({ contents: 'module.exports = globalThis.__sdkwasm', loader: 'js' }))
        b.onResolve({ filter: /^@?[a-z].*/ }, a => a.namespace === 'file' || a.importer || a.kind !== 'entry-point' ? (stub[a.path] ? { path: `${here}/stubs/${stub[a.path]}` } : /^(@gear-js|@polkadot|sails-js|@invariant)/.test(a.path) ? { path: a.path, namespace: 'absent' } : undefined) : undefined)
        b.onLoad({ filter: /.*/, namespace: 'absent' }, () => ({ contents: 'module.exports = {}', loader: 'js' }))
        b.onResolve({ filter: /^\.\/node(\.js)?$/ }, a => a.importer.includes('/sdk/src/') ? { path: `${here}/stubs/node.mjs` } : undefined)
      }
    }]
  })
}
// The order of the contract's errors, as the SDK's enum numbers them.
export function errors (sdk) {
  const text = fs.readFileSync(`${sdk}/src/wasm/storage/errors.rs`, 'utf8')
  const m = /enum\s+InvariantError\s*{([^}]*)}/.exec(text)
  const e = {}
  m?.[1].replace(/\/\/.*/g, '').split(',').map(s => s.trim().replace(/#\[.*?\]\s*/g, '')).filter(Boolean).forEach((n, i) => { e[n.split(/\s/)[0]] = i; e[i] = n.split(/\s/)[0] })
  return e
}
