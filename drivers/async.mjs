// Binds JustAsync.tla to asynchronous updaters of createState / createStore.
import { stateConcs } from './state.mjs'
import { runInNewContext } from 'node:vm'
import { drain } from '../lib/harness.mjs'

// the promises of another window of the page
const Other = runInNewContext('Promise')

// null has a name of its own here
const tame = { app: ['', false], state2: [Number.NaN, sym()] }
function sym() {
	return Symbol('b')
}
export const asyncConcs = stateConcs.map(c => {
	const t = tame[c.name]
	return t ? { ...c, prim: { prim: true, pool: () => ({ a: t[0], b: t[1], U: undefined }) } } : c
})

export async function asyncDriver(world, conc, cfg) {
	const m = world.shared()
	const { nothing } = m.states
	const kind = conc[cfg.kind]
	const pool = kind.pool()
	// null is one of the primitives in some concretizations
	const snaps = new Map()
	const content = v => {
		if (v && typeof v === 'object' && !snaps.has(v) && !kind.prim) snaps.set(v, JSON.stringify(v))
		if (v === undefined) return 'U'
		for (const k of ['a', 'b']) if (Object.is(pool[k], v)) return k
		if (v === null) return 'N'
		if (v && typeof v === 'object') {
			const c = kind.content(v)
			return JSON.stringify(kind.pool()[c]) === JSON.stringify(v) ? c : `torn:${JSON.stringify(v)}`
		}
		return `?${String(v)}`
	}
	const value = c => (c === 'N' ? null : pool[c])
	let get
	let set
	let onChange
	let reset
	if (conc.make === 'state' || conc.make === 'appState') {
		const [v, st, on, rs] = m.states.createState(pool.a)
		let cur = v
		on(x => (cur = x))
		get = () => cur
		set = st
		onChange = on
		reset = rs
	} else ({ get, set, onChange, reset } = m.states.createStore(pool.a))

	let ev = []
	const handlers = {}
	const active = {}
	const beh = {}
	const handler = h =>
		(handlers[h] ??= (n, o) => {
			ev.push({ h, n: content(n), o: content(o), g: content(get()) })
			if (beh[h] === 'offSelf') off(h)
			if (beh[h] === 'setA' && !Object.is(n, pool.a)) set(pool.a)
		})
	const off = h => {
		const t = active[h]
		delete active[h]
		t()
	}
	const pend = {}
	const early = []
	const torn = new Error('reason')
	const inPlace = (d, c) => {
		if (kind.content(d) !== c) kind.mutate(d, c)
	}
	const flavour = { store: 0, state: 1, app: 2, store2: 3, state2: 0, appState: 2 }[conc.name] ?? 0

	const begin = ({ p, k, c }) => {
		let seen = 'not called'
		let open
		let fail
		const gate = new Promise((res, rej) => {
			open = res
			fail = rej
		})
		const first = d => {
			seen = content(d && typeof d === 'object' && !kind.prim ? Object.freeze(JSON.parse(JSON.stringify(d))) : d)
			if (kind.prim !== true && (k === 'in' || k === 'inRej' || k === 'inRet')) inPlace(d, 'b')
		}
		const result = () => (k === 'ret' || k === 'inRet' ? value(c) : k === 'nothing' ? nothing : undefined)
		const rejects = k === 'rej' || k === 'inRej'
		let updater
		if (flavour === 0)
			updater = async d => {
				first(d)
				await gate
				if (rejects) throw torn
				return result()
			}
		else if (flavour === 3)
			updater = d => {
				first(d)
				return new Other((res, rej) => gate.then(() => (rejects ? rej(torn) : res(result()))))
			}
		else if (flavour === 1)
			updater = d => {
				first(d)
				return gate
			}
		else
			updater = d => {
				first(d)
				return gate.then(() => {}).then(() => (rejects ? Promise.reject(torn) : result()))
			}
		const rec = { settled: undefined }
		const ret = set(updater)
		if (typeof ret?.then !== 'function') return `not a promise: ${content(ret)}`
		ret.then(
			v => {
				rec.settled = content(v)
			},
			e => (rec.settled = e === torn ? 'rejected' : `other: ${e}`)
		).then(() => {
			if (!rec.asked) early.push(p)
		})
		rec.go = () => {
			rec.asked = true
			if (flavour === 1 && rejects) fail(torn)
			else open(flavour === 1 ? result() : undefined)
		}
		pend[p] = rec
		return seen
	}

	return {
		step(e) {
			ev = []
			switch (e.op) {
				case 'set':
					return { ev, ret: content(set(value(e.c))) }
				case 'in': {
					const r = set(d => inPlace(d, e.c))
					return { ev, ret: content(r) }
				}
				case 'reset':
					reset()
					return { ev, ret: '-' }
				case 'sub':
					beh[e.h] = e.b
					active[e.h] = onChange(handler(e.h))
					return { ev, ret: '-' }
				case 'off':
					off(e.h)
					return { ev, ret: '-' }
				case 'begin': {
					const seen = begin(e)
					return drain().then(() => ({ ev, ret: seen }))
				}
				case 'settle': {
					const rec = pend[e.p]
					delete pend[e.p]
					rec.go()
					return drain().then(() => ({ ev, ret: rec.settled ?? 'pending' }))
				}
				case 'both': {
					const [p, q] = [e.p, e.q].map(p => pend[p])
					delete pend[e.p]
					delete pend[e.q]
					p.go()
					q.go()
					return drain().then(() => ({ ev, ret: p.settled ?? 'pending', ret2: q.settled ?? 'pending' }))
				}
			}
		},
		obs() {
			const o = { get: content(get()), early }
			// what was read, delivered or resolved stays as it was, and frozen
			for (const [v, t] of snaps) if (JSON.stringify(v) !== t || !Object.isFrozen(v)) o.snapshot = `${t} -> ${JSON.stringify(v)}`
			return o
		},
		pending: p => !!pend[p],
		isSub: h => !!active[h],
		behs: () => Object.keys(active).map(h => beh[h]),
		current: () => content(get())
	}
}
