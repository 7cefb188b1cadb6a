// Binds JustList.tla to createStore, adder, withAdder, push, unshift and toReadonlyStore.
const fns = [() => 'x', () => 'y', () => 'z']
export const listConcs = [
	{ name: 'objects', pool: () => ({ x: { a: 1 }, y: { a: 2 }, z: { a: [3] } }) },
	{ name: 'falsy', pool: () => ({ x: undefined, y: null, z: 0 }) },
	{ name: 'functions', pool: () => ({ x: fns[0], y: fns[1], z: fns[2] }) },
	{ name: 'arrays', pool: () => ({ x: [], y: ['y'], z: [[]] }) },
	{ name: 'strings', pool: () => ({ x: '', y: 'y', z: 'length' }), bare: true }
]

export async function listDriver(world, conc, cfg) {
	const { states } = world.shared()
	const pool = conc.pool()
	const abs = v => Object.keys(pool).find(k => Object.is(pool[k], v)) ?? `?${JSON.stringify(v)}`
	const seq = xs => (Array.isArray(xs) ? Array.from(xs, abs) : `?${JSON.stringify(xs)}`)
	const conv = e => (e === 'T' ? T : pool[e])
	const T = { throw: true }
	const boom = new Error('boom')
	const guard = h => (r, e) => {
		if (e === T) throw boom
		h(r, e)
		// what a handler returns is of no effect, as of (r, e) => r.push(e)
		return [undefined, r.length, null, 0, 'x'][turn++ % 5]
	}
	let turn = 0
	const once = (r, e) => {
		// a draft wraps objects: compare with what is behind it
		if (!r.some(x => Object.is(unwrap(x), e))) r.push(e)
	}
	const store = states.createStore(cfg.init === 'one' ? [pool.x] : [])
	const unwrap = x => {
		const i = seq(store.get()).findIndex((_, k) => store.get()[k] === x)
		if (i >= 0) return x
		if (x && typeof x === 'object') return Object.values(pool).find(p => JSON.stringify(p) === JSON.stringify(x)) ?? x
		return x
	}
	const mk = h => (conc.bare ? { add: states.adder(store, guard(h)) } : states.withAdder(store, guard(h)))
	const adders = { push: mk(states.push), unshift: mk(states.unshift), once: mk(once) }
	const view = states.toReadonlyStore(conc.bare ? store : adders.push)
	let ev = []
	const hear = w => (n, o) => {
		const e = { w, n: seq(n), o: seq(o) }
		if (n !== store.get()) e.stale = true
		ev.push(e)
	}
	store.onChange(hear('own'))
	view.onChange(hear('view'))
	const has = (xs, k) => xs.some(v => Object.is(v, pool[k]))
	if (cfg.fol) (conc.bare ? view : store).onChange(n => has(n, 'y') && !has(n, 'z') && adders.push.add(pool.z))
	return {
		step(e) {
			ev = []
			let ret = '-'
			switch (e.op) {
				case 'add':
					try {
						adders[e.how].add(...e.es.map(conv))
					} catch (x) {
						ret = x === boom ? 'threw' : `other: ${x}`
					}
					break
				case 'set':
					store.set(e.es.map(conv))
					break
				case 'clear':
					store.set(r => {
						if (r.length) r.length = 0
					})
					break
				case 'reset':
					store.reset()
			}
			return { ev, ret }
		},
		obs() {
			return { get: seq(store.get()), view: seq(view.get()), extra: Object.keys(view).filter(k => k !== 'get' && k !== 'onChange') }
		},
		length: () => store.get().length
	}
}
