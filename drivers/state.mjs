// Binds JustState.tla to createState / createStore of @just-web/states.

const sym = Symbol('b')
const objPool = () => ({ a: { k: 'a', n: { d: 'a' } }, b: { k: 'b', n: { d: 'b' } }, c: { k: 'c', n: { d: 'c' } }, U: undefined })
const arrPool = () => ({ a: ['a'], b: ['b', 1], c: ['c', { z: 2 }], U: undefined })
const recPool = () => {
	const r = k => Object.assign(Object.create(null), { k, n: { d: k } })
	return { a: r('a'), b: r('b'), c: r('c'), U: undefined }
}
const mutObj = (d, c) => {
	d.k = c
	d.n.d = c
}
const mutArr = (d, c) => {
	d.length = 0
	d.push(c)
	if (c === 'b') d.push(1)
	if (c === 'c') d.push({ z: 2 })
}
const contentObj = v => v.k
const contentArr = v => v[0]

const OBJ = { pool: objPool, mutate: mutObj, content: contentObj }
const ARR = { pool: arrPool, mutate: mutArr, content: contentArr }
const REC = { pool: recPool, mutate: mutObj, content: contentObj }
const fpool = () => ({ a: () => 'a', b: () => 'b', c: async () => 'c', U: undefined })
const prim = (a, b, c) => ({ pool: () => ({ a, b, c, U: undefined }), prim: true })

/** what the abstract contents stand for, per kind; and how the cell is made */
export const stateConcs = [
	{ name: 'store', make: 'store', obj: OBJ, prim: prim(0, Number.NaN, ''), fun: { pool: fpool, prim: true } },
	{ name: 'state', make: 'state', obj: ARR, prim: prim('', 'x', false), fun: { pool: fpool, prim: true } },
	{ name: 'app', make: 'app', obj: REC, prim: prim(null, false, 0), fun: { pool: fpool, prim: true } },
	{ name: 'store2', make: 'store', obj: ARR, prim: prim(-0, 0, 10n), fun: { pool: fpool, prim: true } },
	{ name: 'state2', make: 'state', obj: OBJ, prim: prim(Number.NaN, null, sym), fun: { pool: fpool, prim: true } },
	{ name: 'appState', make: 'appState', obj: REC, prim: prim('b', 'a', ' '), fun: { pool: fpool, prim: true } }
]

/** the same with more contents */
const LETTERS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
export const longConcs = stateConcs.map(c => {
	const long = (kind, f) => ({
		...kind,
		pool: () => {
			const { U, ...p } = kind.pool()
			for (const x of LETTERS) if (!(x in p)) p[x] = f(x)
			return { ...p, U }
		}
	})
	const like = kind => {
		// the last ones are big
		const mutate = (d, x) => {
			kind.mutate(d, x)
			const big = x > 'f' && x.length === 1
			if (Array.isArray(d)) {
				if (big) for (let n = 0; n < 40; n++) d.push({ n, x })
				return
			}
			for (let n = 0; n < 40; n++)
				if (big) d[`p${n}`] = { n, x }
				else delete d[`p${n}`]
		}
		const one = x => {
			const v = structuredClone(kind.pool().c)
			mutate(v, x)
			return Object.getPrototypeOf(kind.pool().c) ? v : Object.assign(Object.create(null), v)
		}
		return long({ ...kind, mutate }, one)
	}
	return { ...c, obj: like(c.obj), prim: long(c.prim, x => `value ${x}`), fun: long(c.fun, x => () => x) }
})

export async function stateDriver(world, conc, cfg) {
	const m = world.shared()
	const { nothing } = m.states
	const kind = conc[cfg.kind]
	const pool = kind.pool()
	const names = Object.keys(pool).filter(k => k !== 'U')
	const init = pool[cfg.init]
	let get
	let set
	let onChange
	let reset
	if (conc.make === 'store' || conc.make === 'app') {
		let mk = m.states.createStore
		if (conc.make === 'app') mk = (await stateApp(world)).states.createStore
		const s = mk(init)
		get = () => s.get()
		set = v => s.set(v)
		onChange = h => s.onChange(h)
		reset = () => s.reset()
	} else {
		let mk = m.states.createState
		if (conc.make === 'appState') mk = (await stateApp(world)).states.createState
		const [v, st, on, rs] = mk(init)
		// a state has no getter: its subscribers are the only way to see the value
		let cur = v
		on(x => (cur = x))
		get = () => cur
		set = st
		onChange = on
		reset = rs
	}

	const snaps = new Map()
	const keep = v => {
		if (v && typeof v === 'object' && !snaps.has(v)) snaps.set(v, JSON.stringify(v))
		return v
	}
	const abs = v => {
		if (v === undefined) return { c: 'U', i: 'p' }
		for (const k of names) if (Object.is(pool[k], v)) return { c: k, i: 'p' }
		keep(v)
		if (v && typeof v === 'object') {
			const c = kind.content(v)
			const ref = kind.pool()[c]
			return { c: JSON.stringify(ref) === JSON.stringify(v) ? c : `torn:${JSON.stringify(v)}`, i: 'f' }
		}
		return { c: `?${String(v)}`, i: 'f' }
	}
	const content = v => abs(v).c

	let ev = []
	const handlers = {}
	const beh = {}
	const tokens = {}
	const active = {}
	const NEXT = { h1: 'h2', h2: 'h3', h3: 'h1' }
	const drop = h => {
		const t = active[h]
		if (!t) return
		delete active[h]
		t()
	}
	const join = (h, b) => {
		if (active[h]) return
		beh[h] = b
		const t = onChange(handler(h))
		;(tokens[h] ??= []).push(t)
		active[h] = t
	}
	const handler = h =>
		(handlers[h] ??= (v, p) => {
			ev.push({ h, n: abs(v), o: abs(p), g: abs(get()) })
			keep(v)
			keep(p)
			switch (beh[h]) {
				case 'offSelf':
					return drop(h)
				case 'offNext':
					return drop(NEXT[h] ?? 'h1')
				case 'onNext':
					return join(NEXT[h] ?? 'h1', 'plain')
				case 'down': {
					const { c } = abs(v)
					if (c !== 'U' && c !== 'a') set(pool[names[names.indexOf(c) - 1]])
					return
				}
				case 'resetIn':
					return reset()
				case 'again':
					drop(h)
					return join(h, 'again')
				case 'setA':
					if (!Object.is(v, pool.a)) set(pool.a)
			}
		})
	const write = x => {
		ev = []
		const r = set(x)
		return { ev, ret: content(keep(r)) }
	}
	const booms = [new Error('boom'), new TypeError('boom'), 'boom', undefined, Object.freeze({ boom: true }), null]
	let thrown = 0

	return {
		step(e) {
			switch (e.op) {
				case 'set':
					return write(pool[e.c])
				case 'same':
					return write(get())
				case 'ret':
					return write(() => pool[e.c])
				case 'nest':
					return write(() => {
						if (e.w === 'reset') reset()
						else if (e.w === 'on') join('h1', 'plain')
						else if (e.w === 'off') drop('h1')
						else set(pool[e.w])
						return pool[e.c]
					})
				case 'in':
					return write(d => {
						if (kind.prim || d === undefined) return
						if (kind.content(d) !== e.c) kind.mutate(d, e.c)
					})
				case 'void':
					return write(() => {})
				case 'nothing':
					return write(() => nothing)
				case 'throw': {
					ev = []
					const boom = booms[thrown++ % booms.length]
					let ret = 'returned'
					try {
						set(d => {
							if (!kind.prim && d !== undefined) kind.mutate(d, 'torn')
							throw boom
						})
					} catch (x) {
						ret = x === boom ? 'throw' : `other: ${x}`
					}
					return { ev, ret }
				}
				case 'late': {
					ev = []
					let kept
					set(d => {
						kept = d
					})
					let ret = 'written'
					try {
						kind.mutate(kept, 'torn')
					} catch {
						ret = 'revoked'
					}
					return { ev, ret }
				}
				case 'poke': {
					ev = []
					const v = get()
					const before = JSON.stringify(v)
					let ret = 'written'
					try {
						if (Array.isArray(v)) v[0] = 'torn'
						else v.k = 'torn'
					} catch {
						ret = 'frozen'
					}
					try {
						if (Array.isArray(v)) v.push('torn')
						else v.extra = 'torn'
						ret = 'extended'
					} catch {}
					if (JSON.stringify(v) !== before) ret = 'changed'
					return { ev, ret }
				}
				case 'reset':
					ev = []
					reset()
					return { ev, ret: '-' }
				case 'sub':
					ev = []
					join(e.h, e.b)
					return { ev, ret: '-' }
				case 'dup':
					ev = []
					onChange(handler(e.h))()
					return { ev, ret: '-' }
				case 'off':
					ev = []
					drop(e.h)
					return { ev, ret: '-' }
				case 'stale':
					ev = []
					for (const t of tokens[e.h] ?? []) if (t !== active[e.h]) t()
					return { ev, ret: '-' }
			}
		},
		obs() {
			const v = keep(get())
			let intact = true
			for (const [o, s] of snaps) if (JSON.stringify(o) !== s || !Object.isFrozen(o)) intact = false
			return { get: abs(v), intact }
		},
		isSub: h => !!active[h],
		hasStale: h => (tokens[h] ?? []).some(t => t !== active[h]),
		behs: () => Object.keys(active).map(h => beh[h]),
		current: () => abs(get())
	}
}

async function stateApp(world) {
	return (world.cached.stateApp ??= await (async () => {
		const m = world.shared()
		return m.appTesting.justTestApp().with(m.states.statesGizmo).create()
	})())
}
