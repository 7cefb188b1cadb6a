// Binds JustEvents.tla to eventsGizmoFn.
import { EventEmitter } from 'node:events'
import { logTap, makeApp } from './apps.mjs'

const sym = Symbol('event')
const obj = { deep: [1] }
export const eventsConcs = [
	{ name: 'plain', evs: { e1: 'some.event', e2: 'other' }, args: { none: [], one: [obj], many: [1, undefined, null, 'x', obj, 0, []] }, emitter: () => new EventEmitter() },
	{ name: 'inherited', evs: { e1: 'constructor', e2: '__proto__' }, args: { none: [], one: [undefined], many: [obj, 2] }, emitter: () => new EventEmitter() },
	{ name: 'typed', typed: true, evs: { e1: 'typed/one', e2: 'e2' }, args: { one: [obj, undefined], many: ['value', { meta: 1 }], none: [undefined, undefined] }, emitter: listener => listener() },
	{ name: 'symbol', evs: { e1: sym, e2: ' ' }, args: { none: [], one: [null], many: [1, 2, 3, 4] }, emitter: listener => listener() }
]

/** an emitter of somebody else: the smallest thing that can be given */
class Tiny {
	constructor() {
		this.map = new Map()
	}
	addListener(e, f, once = false) {
		this.map.set(e, [...(this.map.get(e) ?? []), { f, once }])
		return this
	}
	on(e, f) {
		return this.addListener(e, f)
	}
	once(e, f) {
		return this.addListener(e, f, true)
	}
	removeListener(e, f) {
		this.map.set(e, (this.map.get(e) ?? []).filter(x => x.f !== f))
		return this
	}
	removeAllListeners(e) {
		this.map.delete(e)
		return this
	}
	listeners(e) {
		return (this.map.get(e) ?? []).map(x => x.f)
	}
	emit(e, ...args) {
		const q = this.map.get(e) ?? []
		for (const { f, once } of q) {
			if (once) this.removeListener(e, f)
			f.apply(this, args)
		}
		return q.length > 0
	}
}

export async function eventsDriver(world, conc, cfg, names, evNames) {
	const m = world.shared()
	const typed = conc.typed ? Object.fromEntries(Object.entries(conc.evs).map(([e, id]) => [e, m.events.justEvent(id)])) : undefined
	const apps = {}
	const log = {}
	const given = {}
	for (const a of names) {
		let options
		if (cfg.emitter === 'custom') options = { emitter: (given[a] = conc.emitter(() => new Tiny())) }
		apps[a] = await makeApp(m, { gizmos: [m.events.eventsGizmoFn(options)] })
		log[a] = logTap(apps[a])
	}
	let calls = []
	const em = a => apps[a].events.emitter
	const errors = { l1: new Error('l1 failed'), l2: 'l2 failed', l3: new TypeError('l3 failed') }
	for (let k = 4; k <= 20; k++) errors[`l${k}`] = new Error('another failed')
	const same = (xs, ys) => xs.length === ys.length && xs.every((x, i) => Object.is(x, ys[i]))
	const absArgs = args => Object.keys(conc.args).find(k => same(conc.args[k], args)) ?? `?${args.length}`
	const NEXT = l => ({ l1: 'l2', l2: 'l3' })[l] ?? 'l1'
	let fuel = 1
	// one function per listener, event and app; what it does is decided when it subscribes
	const fs = {}
	const beh = {}
	const listens = {}
	const key = (a, e, l) => `${a}/${e}/${l}`
	const fn = (a, e, l) =>
		(fs[key(a, e, l)] ??= (...args) => {
			const b = beh[key(a, e, l)]
			calls.push({ l, e, arg: absArgs(args) })
			if (listens[key(a, e, l)] === 'once') delete listens[key(a, e, l)]
			if (b === 'throw') throw errors[l]
			if (b === 'off') off(a, e, l)
			if (b === 'drop') off(a, e, NEXT(l))
			if (b === 'add' && !listens[key(a, e, NEXT(l))] && evLists.includes(NEXT(l))) on(a, e, NEXT(l), 'plain')
			if (b === 'emit' && fuel > 0) {
				fuel--
				emit(a, 'e2', args)
				// deeper ones have used up what there was
				fuel = 0
			}
		})
	let evLists = ['l1', 'l2', 'l3']
	const on = (a, e, l, b, once) => {
		beh[key(a, e, l)] = b
		listens[key(a, e, l)] = once ? 'once' : 'on'
		const f = fn(a, e, l)
		if (typed && !once) typed[e].listenTo(em(a), typed[e].listener(f))
		else if (once) em(a).once(conc.evs[e], f)
		else em(a).addListener(conc.evs[e], f)
	}
	const off = (a, e, l) => {
		delete listens[key(a, e, l)]
		em(a).removeListener(conc.evs[e], fn(a, e, l))
	}
	let how = 0
	const emit = (a, e, args) => {
		if (typed && how++ % 2) typed[e].emitBy(em(a), ...args)
		else if (typed) em(a).emit(typed[e].type, ...typed[e](...args))
		else em(a).emit(conc.evs[e], ...args)
	}
	return {
		step(x) {
			calls = []
			fuel = 1
			for (const a of names) log[a].skip()
			let ret = '-'
			if (x.op === 'emit') {
				try {
					emit(x.a, x.e, conc.args[x.arg])
				} catch (e) {
					ret = `threw ${e}`
				}
			} else if (x.op === 'off') off(x.a, x.e, x.l)
			else if (x.op === 'clear') {
				for (const l of evLists) delete listens[key(x.a, x.e, l)]
				em(x.a).removeAllListeners(conc.evs[x.e])
			} else on(x.a, x.e, x.l, x.b, x.op === 'once')
			const errs = []
			for (const a of names)
				for (const entry of log[a].take())
					if (entry.level <= m.app.logLevels.error) {
						const l = Object.keys(errors).find(k => entry.args.includes(errors[k])) ?? `?${entry.args.map(String)}`
						errs.push(a === x.a ? l : `${a}:${l}`)
					}
			return { calls, errs, ret }
		},
		obs() {
			const n = Object.fromEntries(names.map(a => [a, Object.fromEntries(evNames.map(e => [e, em(a).listeners(conc.evs[e]).length]))]))
			for (const a of names) if (given[a] && given[a] !== em(a)) n[a] = 'another emitter'
			return { n }
		},
		lists(xs) {
			evLists = xs
		},
		listens: (a, e, l) => !!listens[key(a, e, l)]
	}
}
export const eventsDriverOf = (names, evs, lists) => async (world, conc, cfg) => {
	const d = await eventsDriver(world, conc, cfg, names, evs)
	d.lists(lists)
	return d
}
