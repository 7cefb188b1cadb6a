// Binds JustRegistry.tla to createRegistry, withAdder and toReadonlyRegistry.
import { more, range } from '../lib/wide.mjs'

const s1 = Symbol('s')
const s2 = Symbol('s')
const names = (a, b, c) => ({ k1: a, k2: b, k3: c, s1, s2, n1: '0', n2: '7', n3: '42' })
const f = () => 'v2'
const INHERITED = ['constructor', 'toString', '__proto__', 'hasOwnProperty', 'valueOf', Symbol.iterator, Symbol.toStringTag]

/** many keys */
export const registryWide = () => {
	const syms = Object.fromEntries(range('s', 6, 3).map(s => [s, Symbol(s)]))
	const keys = [...range('k', 90), ...range('s', 8), 'n1', 'n2', 'n3']
	return { keys, concs: registryConcs.map(c => ({ ...c, names: { ...more(c.names, 'k', 90), ...syms } })) }
}

export const registryConcs = [
	{ name: 'plain', names: names('a', 'b', 'c'), F: null, make: 'plain' },
	{ name: 'inherited', names: names('constructor', '__proto__', 'toString'), F: 0, make: 'plain' },
	{ name: 'odd', names: names('', 'null', 'a.b/c d'), F: '', make: 'object' },
	{ name: 'app', names: names('__proto__', 'k', 'valueOf'), F: false, make: 'app' },
	{ name: 'wellknown', names: { ...names('length', 'size', 'keys'), s1: Symbol.iterator, s2: Symbol.for('x') }, F: Number.NaN, make: 'object' }
]

const make = keyNames => async (world, conc, cfg) => {
	const m = world.shared()
	const pool = { v1: { v: 1 }, v2: f, F: conc.F, U: undefined }
	const key = k => conc.names[k]
	const absKey = k => Object.keys(conc.names).find(n => conc.names[n] === k) ?? `?${String(k)}`
	const absVal = v => Object.keys(pool).find(n => Object.is(pool[n], v)) ?? `?${JSON.stringify(v)}`
	const base = () => (conc.make === 'object' ? {} : Object.create(null))
	const entry = (o, k, v) => {
		o[k] = v
		return o
	}
	const isInit = cfg.init === 'one'
	const init = isInit ? entry(base(), key('k1'), pool.v1) : conc.make === 'object' ? {} : undefined
	const create = conc.make === 'app' ? (await registryApp(world)).states.createRegistry : m.states.createRegistry
	const registry = init ? create(init) : create()
	const own = (r, k) => Object.prototype.hasOwnProperty.call(r, k)
	const boom = new Error('boom')
	const handler = how => (r, e) => {
		if (e.v === 'T') throw boom
		if (how === 'first' && own(r, key(e.k))) return
		r[key(e.k)] = pool[e.v]
	}
	const adders = { first: m.states.withAdder(registry, handler('first')), last: m.states.withAdder(registry, handler('last')) }
	// the view is made of what withAdder returns, which is a registry as well
	const view = m.states.toReadonlyRegistry(conc.name === 'odd' ? adders.first : registry)
	let ev = []
	const content = r => Reflect.ownKeys(r).map(k => ({ k: absKey(k), v: absVal(r[k]) }))
	const hear = w => (n, o) => {
		const e = { w, n: content(n), o: content(o) }
		if (n !== registry.get()) e.stale = true
		ev.push(e)
	}
	registry.onChange(hear('own'))
	view.onChange(hear('view'))

	const write = x => {
		registry.set(x)
		return { ev, ret: '-' }
	}
	const same = (a, b) => JSON.stringify(a) === JSON.stringify(b)
	const readers = ['get', 'has', 'keys', 'onChange', 'size', 'values']
	return {
		step(e) {
			ev = []
			const k = e.k && key(e.k)
			const v = e.v && pool[e.v]
			switch (e.op) {
				case 'put':
					return write(r => {
						r[k] = v
					})
				case 'del':
					return write(r => {
						delete r[k]
					})
				case 'swap':
					return write(r => {
						delete r[k]
						r[k] = v
					})
				case 'merge':
					return write(r => {
						const n = conc.make === 'object' ? {} : Object.create(null)
						for (const x of Reflect.ownKeys(r)) n[x] = r[x]
						n[k] = v
						return n
					})
				case 'only':
					return write(entry(base(), k, v))
				case 'reset':
					registry.reset()
					return { ev, ret: '-' }
				case 'add': {
					let ret = '-'
					try {
						adders[e.how].add(...e.es)
					} catch (x) {
						ret = x === boom ? 'threw' : `other: ${x}`
					}
					return { ev, ret }
				}
			}
		},
		obs() {
			const keys = registry.keys()
			const values = registry.values()
			const r = registry.get()
			const has = Object.fromEntries(keyNames.map(n => [n, registry.has(key(n))]))
			const viewSame =
				view.get() === r &&
				same(view.keys().map(absKey), keys.map(absKey)) &&
				same(view.values().map(absVal), values.map(absVal)) &&
				view.size() === registry.size() &&
				Object.keys(has).every(n => view.has(key(n)) === has[n])
			return {
				keys: keys.map(absKey),
				values: values.map(absVal),
				content: Array.isArray(keys) ? keys.map(k => ({ k: absKey(k), v: absVal(r[k]) })) : 'no keys',
				size: registry.size(),
				has,
				view: viewSame ? 'same' : 'differs',
				extra: Object.keys(view).filter(x => !readers.includes(x)),
				alien: INHERITED.filter(k => !Object.values(conc.names).includes(k) && (registry.has(k) || view.has(k))).map(String)
			}
		}
	}
}

/** a driver for the keys of one configuration */
export const registryDriverOf = make

async function registryApp(world) {
	return (world.cached.registryApp ??= await (async () => {
		const m = world.shared()
		return m.appTesting.justTestApp().with(m.states.statesGizmo).create()
	})())
}
