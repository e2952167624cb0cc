// One history: the contract behind the client's transport, which records everything the client sends.
import { Harness, show, toHex, toBytes } from './lib.mjs'
const key = s => typeof s === 'string' ? s : toHex(s.addressRaw)
export class World {
  constructor (m, contract, rng, deposit) {
    this.m = m; this.c = contract; this.rng = rng
    this.deposit = deposit; this.sent = []; this.asked = []; this.results = []; this.fake = null
    const self = this
    this.api = new m.gear.GearApi({
      deposit,
      async execute (tx, account) {
        const by = key(account)
        self.sent.push({ ...tx, by })
        if (self.fake) return self.fake(tx, by)
        return self.run(tx, by)
      },
      async query (q) {
        const payload = q.payload
        self.asked.push(q)
        if (self.fakeQuery) { const r = self.fakeQuery(q); if (r !== undefined) return r }
        const r = await contract.json('query ' + payload)
        self.answers?.push(r)
        if (r.error) throw new Error('query failed: ' + r.error)
        return r.reply
      },
      batch (api, calls) {
        return {
          async signAsync (account) { this.by = key(account) },
          async send (cb) {
            if (this.by === undefined) throw new Error('not signed')
            if (self.refuse) { queueMicrotask(() => cb({ status: { isInBlock: true, asInBlock: { toHex: () => '0xb0' } }, events: [{ event: { method: 'ExtrinsicFailed', section: 'system', data: {}, why: self.refuse } }] })); return }
            cb({ status: { isInBlock: false, isReady: true }, events: [] })
            const events = []
            const noise = () => { if (self.rng.chance(1, 3)) events.push({ event: { method: self.rng.pick(['MessagesDispatched', 'Withdraw', 'UserMessageRead']), section: self.rng.pick(['gear', 'balances']), data: {} } }) }
            let n = 0
            for (const tx of calls) {
              self.sent.push({ ...tx, by: this.by })
              const r = await self.run(tx, this.by)
              const id = '0x' + (++n).toString(16).padStart(64, '0')
              noise()
              events.push({ event: { method: 'MessageQueued', section: 'gear', data: { id: { toHex: () => id }, destination: { toHex: () => tx.destination } } } })
              api.replies.set(id, { data: { message: { payload: r.ok ? (self.garble?.(n - 1, r) ?? r.reply) : r.err, details: { unwrap: () => ({ code: { isSuccess: r.ok } }) } } } })
            }
            noise()
            events.push({ event: { method: 'ExtrinsicSuccess', section: 'system', data: {} } })
            cb({ status: { isInBlock: true, asInBlock: { toHex: () => '0xb0' } }, events })
          }
        }
      }
    })
    const create = this.api.registry.createType.bind(this.api.registry)
    this.api.registry.createType = (t, v) => t === 'String' && typeof v === 'string' && !v.startsWith('0x') ? { toString: () => v } : create(t, v)
  }
  async start (seed) {
    const r = await this.c.json('start ' + seed)
    if (r.error) throw new Harness(r.error)
    this.program = r.program; this.steps = r.steps
    this.client = await this.m.invariant.Invariant.load(this.api, r.program)
    await this.refresh()
  }
  async refresh () {
    const d = await this.c.json('dump')
    this.d = d
    this.users = new Map(d.users.map(u => [u.user, u]))
  }
  async run (tx, by) {
    if (tx.destination !== this.program) throw new Harness('a call to another program')
    const r = await this.c.json(`call ${by} ${tx.payload} ${tx.value}`)
    if (r.error) { r.ok = false; r.err = r.error; r.unread = true; r.events = [] }
    this.results.push(r)
    this.logs?.push(`${by.slice(0, 6)} ${r.method}(${show(r.args)}) value ${tx.value} -> ${r.ok ? show(r.ret) : r.err}`)
    const wrap = raw => ({ toHex: () => raw, toU8a: () => toBytes(raw), toString: () => raw })
    const id = v => ({ eq: o => (o instanceof Uint8Array ? toHex(o) : String(o)) === v, toHex: () => v, toString: () => v })
    const zero = '0x' + '00'.repeat(32)
    const tell = (raw, source, dest) => { for (const l of this.api.listeners) l({ data: { message: { source: id(source), destination: id(dest), payload: wrap(raw) } } }) }
    for (const e of r.events) {
      // messages that are not the exchange's events, with the same bytes
      if (this.rng.chance(1, 4)) tell(e.raw, '0x' + '77'.repeat(32), zero)
      if (this.rng.chance(1, 4)) tell(e.raw, this.program, '0x' + '03'.repeat(32))
      if (this.rng.chance(1, 8)) tell('0x' + '1c4f74686572' + '0c' + '00' + e.raw.slice(2), this.program, zero)
      tell(e.raw, this.program, zero)
    }
    return r
  }
  signer (by) { return this.rng.chance(1, 2) ? by : { address: by, addressRaw: toBytes(by) } }
  actor (a) { return this.rng.chance(1, 2) ? a : toBytes(a) }
}
