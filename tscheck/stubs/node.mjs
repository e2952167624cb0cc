export const readFile = async () => new Uint8Array([0, 97, 115, 109])
export const join = (...p) => p.join('/')
