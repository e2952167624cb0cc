// The parts of @gear-js/api the client uses. A GearApi here runs everything through `execute` and `query`.
import { TypeRegistry } from './types.mjs'
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
export const decodeAddress = s => {
  if (s instanceof Uint8Array) return '0x' + Array.from(s, x => x.toString(16).padStart(2, '0')).join('')
  if (/^0x[0-9a-f]{64}$/i.test(s)) return s
  let v = 0n
  for (const c of s) { const i = A.indexOf(c); if (i < 0) throw new Error('Invalid base58 character'); v = v * 58n + BigInt(i) }
  return '0x' + v.toString(16).padStart(70, '0').slice(2, 66)
}
export class GearKeyring {}
export class ProgramMetadata {}
export class GearApi {
  constructor ({ execute, query, batch, deposit = 1n }) {
    this.execute = execute
    this.registry = new TypeRegistry()
    this.listeners = []
    this.blockGasLimit = { toBigInt: () => 750_000_000_000n, toString: () => '750000000000' }
    this.existentialDeposit = { toBigInt: () => deposit }
    this.gearEvents = { subscribeToGearEvent: async (name, cb) => { if (name !== 'UserMessageSent') throw new Error('harness: event ' + name); this.listeners.push(cb); return () => { this.listeners = this.listeners.filter(x => x !== cb) } } }
    this.message = {
      calculateReply: async q => { const payload = await query(q); return { payload, value: 0, code: { isSuccess: true } } },
      getReplyEvent: async (program, id) => this.replies.get(id)
    }
    this.replies = new Map()
    this.tx = { utility: { batchAll: calls => batch(this, calls) } }
  }
  getExtrinsicFailedError (event) { return new Error(event.why) }
  async chain () { return 'stub' }
  async nodeName () { return 'stub' }
  async nodeVersion () { return '0' }
  static async create (o) { GearApi.created = o; return new GearApi(GearApi.parts) }
}
