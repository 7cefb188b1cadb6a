import { createAll, logTap, pageLog } from './apps.mjs'
// Binds JustStateLog.tla to app.states of justApp() and justTestApp().
const writer = id => {
	const logs = []
	return { id, logs, write: e => void logs.push(e) }
}
const obj = k => ({ k, n: { d: k } })
const pools = {
	obj: () => ({ a: obj('a'), b: obj('b'), c: obj('c') }),
	arr: () => ({ a: [], b: ['b', 1], c: ['c', { z: 2 }] }),
	bare: () => ({ a: {}, b: obj('b'), c: obj('c') }),
	prim: () => ({ a: 0, b: Number.NaN, c: null }),
	prim2: () => ({ a: undefined, b: '', c: false })
}
// factories: what the cells are; meta: what is given for the app's own logger
export const stateLogConcs = [
	{ name: 'store', make: ['createStore', 'createState'], pool: 'obj', names: { A: 'app', B: 'app2', C: 'third app' }, meta: [undefined, {}] },
	{ name: 'state', make: ['createState', 'createStore'], pool: 'arr', names: { A: 'a', B: 'a:sub', C: 'third app' }, meta: [{ logger: undefined }, undefined] },
	{ name: 'registry', make: ['createRegistry', 'createRegistry'], pool: 'obj', names: { A: 'test', B: 'ü b', C: 'third app' }, meta: [{}, undefined], test: true },
	{ name: 'prims', make: ['createState', 'createStore'], pool: 'prim', names: { A: 'one', B: 'two', C: 'third app' }, meta: [undefined], test: true },
	{ name: 'bare', bare: true, make: ['createState', 'createState'], pool: 'obj', names: { A: 'app', B: 'app2', C: 'third app' }, meta: [undefined, {}] },
	{ name: 'empty', empty: true, make: ['createRegistry', 'createRegistry'], pool: 'bare', names: { A: 'x', B: 'x2', C: 'third app' }, meta: [{}, undefined] },
	{ name: 'undefined', make: ['createStore', 'createState'], pool: 'prim2', names: { A: 'x', B: 'y', C: 'third app' }, meta: [{}] }
]
const numbers = { info: 700, trace: 900, planck: Number.POSITIVE_INFINITY }

export async function stateLogDriver(world, conc, cfg, names, cells) {
	const m = world.shared()
	const page = logTap(await pageLog(m))
	const A = {}
	const writers = {}
	const builders = {}
	for (const a of names) {
		const w = (writers[a] = writer('mem'))
		const make = conc.test ? m.appTesting.justTestApp : m.app.justApp
		builders[a] = make({ name: conc.names[a], log: { logLevel: numbers[cfg[a]], reporters: [w] } })
			.with(m.states.statesGizmo)
	}
	for (const [a, app] of Object.entries(await createAll(builders, conc.meta.length > 1))) A[a] = { app, w: writers[a], read: writers[a].logs.length }
	const other = a => names.find(x => x !== a)
	const C = {}
	let flip = 0
	const abs = (x, v) => {
		for (const k of ['a', 'b', 'c']) if (Object.is(x.pool[k], v)) return k
		for (const k of ['a', 'b', 'c'])
			if (v && typeof v === 'object' && JSON.stringify(x.fresh()[k]) === JSON.stringify(v)) return k
		return `?${String(v)}`
	}
	let on
	const take = () => {
		const out = {}
		for (const a of [...names, 'page']) {
			const es = a === 'page' ? page.take() : A[a].w.logs.slice(A[a].read)
			if (a !== 'page') A[a].read = A[a].w.logs.length
			const name = conc.names[a]
			out[a] = es.map(e => ({
				id: a === 'page' ? (e.id === '@just-web/states' ? 'states' : `?${e.id}`) : e.id === name ? 'N' : e.id === `${name}:sub` ? 'N:sub' : e.id === `${name}:loud` ? 'N:loud' : `?${e.id}`,
				m: Object.keys(numbers).find(k => numbers[k] === e.level) ?? `?${e.level}`,
				...(e.level === Number.POSITIVE_INFINITY && e.args.length > 2
					? { o: abs(on, e.args.at(-2)), n: abs(on, e.args.at(-1)) }
					: { o: '-', n: '-' })
			}))
		}
		return out
	}
	const write = (x, v) => x.set(v)
	const mutate = (d, v, k) => {
		if (Array.isArray(d)) {
			d.length = 0
			for (const y of v) d.push(y)
		} else {
			d.k = k
			d.n ? (d.n.d = k) : (d.n = { d: k })
		}
	}
	// an updater that gives undefined keeps what is there
	const given = (x, k) => (abs(x, x.get()) === k ? x.get() : x.pool[k]) ?? (x.pool[k] === undefined ? m.states.nothing : null)
	return {
		step(e) {
			const x = C[e.c]
			on = x
			switch (e.op) {
				case 'create': {
					const own = conc.meta[flip % conc.meta.length]
					const log = A[e.a].app.log
					const meta =
						e.lg === 'own' || e.lg === 'page'
							? own
							: {
									logger:
										e.lg === 'sub'
											? log.getLogger('sub')
											: e.lg === 'loud'
												? log.getLogger('loud', { level: numbers.planck })
												: A[other(e.a)].app.log.getLogger()
								}
					// a logger works the same without the app
					const states = e.lg === 'page' || (meta?.logger && flip % 3 === 0) ? m.states : A[e.a].app.states
					const f = conc.make[(flip++ + cells.indexOf(e.c)) % conc.make.length]
					const fresh = pools[conc.pool]
					const pool = fresh()
					const cell = { pool, fresh, hs: {}, offs: {} }
					if (f === 'createState') {
						const [v, set, onChange, reset] = meta || flip % 2 ? states.createState(pool.a, meta) : states.createState(pool.a)
						let cur = v
						if (conc.bare) {
							// no subscriber of the driver's own: the value is what set() returns, or what a subscriber last got
							let again = false
							const put = y => {
								cur = again ? pool.a : y
								again = false
							}
							Object.assign(cell, {
								get: () => cur,
								set: y => {
									const r = set(y)
									return r?.then ? r.then(put) : put(r)
								},
								again: () => {
									set(pool.a)
									again = true
								},
								onChange,
								reset: () => (reset(), put(pool.a))
							})
						} else {
							onChange(y => (cur = y))
							Object.assign(cell, { get: () => cur, set, onChange, reset })
						}
					} else {
						const init = conc.empty ? undefined : pool.a
						const s = meta || flip % 2 ? states[f](init, meta) : conc.empty ? states[f]() : states[f](init)
						if (conc.empty) pool.a = s.get()
						Object.assign(cell, { get: () => s.get(), set: y => s.set(y), onChange: h => s.onChange(h), reset: () => s.reset() })
					}
					C[e.c] = on = cell
					const out = take()
					// subscribers a state has for itself
					for (const a in out) out[a] = out[a].filter(y => y.m !== 'trace')
					return out
				}
				case 'set':
					write(x, abs(x, x.get()) === e.v ? x.get() : x.pool[e.v])
					return take()
				case 'ret':
					write(x, () => given(x, e.v))
					return take()
				case 'nest': {
					const set = k => write(x, abs(x, x.get()) === k ? x.get() : x.pool[k])
					write(x, () => (set(e.w), given(x, e.v)))
					return take()
				}
				case 'in':
					write(x, d => {
						if (abs(x, x.get()) === e.v) return
						if (typeof d !== 'object' || d === null) return x.pool[e.v]
						mutate(d, x.pool[e.v], e.v)
					})
					return take()
				case 'settle': {
					const v = given(x, e.v)
					return Promise.resolve(write(x, async () => v)).then(take)
				}
				case 'void':
					write(x, () => {})
					return take()
				case 'throw':
					try {
						write(x, () => {
							throw new Error('boom')
						})
					} catch {}
					return take()
				case 'reset':
					x.reset()
					return take()
				case 'sub': {
					const h = (x.hs[e.h] = v => {
						if (e.b === 'setA' && abs(x, v) !== 'a') x.again ? x.again() : write(x, x.pool.a)
					})
					x.offs[e.h] = x.onChange(h)
					return take()
				}
				case 'dup':
					x.onChange(x.hs[e.h])
					return take()
				case 'off':
					x.offs[e.h]()
					delete x.offs[e.h]
					return take()
			}
		},
		obs() {
			return Object.fromEntries(cells.map(c => [c, C[c] ? abs(C[c], C[c].get()) : 'no']))
		},
		has: (c, h) => !!C[c]?.offs[h],
		up: c => !!C[c]
	}
}
export const stateLogDriverOf = (apps, cells) => (world, conc, cfg) => stateLogDriver(world, conc, cfg, apps, cells)
