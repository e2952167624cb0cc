// The parts of sails-js the generated clients use.
import { TypeRegistry, hex } from './types.mjs'
export const ZERO_ADDRESS = '0x' + '00'.repeat(32)
const R = new TypeRegistry()
export const getServiceNamePrefix = p => R.createType('(String, String)', p)[0].toString()
export const getFnNamePrefix = p => R.createType('(String, String)', p)[1].toString()
export const getCtorNamePrefix = p => R.createType('String', p).toString()
const method = t => /^[ui](64|128|256)$/i.test(t) ? 'toBigInt' : /^[ui](8|16|32)$/i.test(t) ? 'toNumber' : t === 'String' ? 'toString' : 'toJSON'
let programs = 0
export class TransactionBuilder {
  constructor (api, registry, kind, payload, payloadType, responseType, target) {
    this._api = api; this._registry = registry; this._responseType = responseType
    this._tx = { kind, payload: hex(registry.createType(payloadType, payload).toU8a()), destination: target, gasLimit: 0n, value: 0n, api }
    if (kind === 'send_message') this.programId = target
    else { programs++; this.programId = this._tx.program = '0x' + programs.toString(16).padStart(64, '0'); this._tx.code = target; this._tx.destination = this.programId }
  }
  get extrinsic () { return this._tx }
  withAccount (account, options) { this._account = account; this._options = options; return this }
  async withGas (gas) { this._tx.gasLimit = BigInt(gas); return this }
  async calculateGas () { this._tx.gasLimit = 1n; return this }
  withValue (v) { this._tx.value = BigInt(v); return this }
  async signAndSend () {
    if (this._account === undefined) throw new Error('Account is required. Use withAccount() method to set account.')
    if (this._tx.gasLimit === 0n) throw new Error('Gas limit is not set')
    const r = await this._api.execute(this._tx, this._account)
    return {
      msgId: '0x' + '01'.repeat(32), blockHash: '0x' + '02'.repeat(32), txHash: '0x' + '03'.repeat(32), isFinalized: Promise.resolve(true),
      response: async () => {
        if (!r.ok) throw new Error(r.err)
        return this._registry.createType(`(String, String, ${this._responseType})`, r.reply)[2][method(this._responseType)]()
      }
    }
  }
}
