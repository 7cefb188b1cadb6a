// Binds JustPrefStore.tla to app.preferences.createStore().
import { domEnv, newDom } from '../lib/bundle.mjs'
import { drain, equal } from '../lib/harness.mjs'

const flat = { null: null, false: false, zero: 0, empty: '', neg: -1.5, text: '"quoted" {}' }
export const prefStoreConcs = [
	{ name: 'objects', a: { x: 1 }, b: { x: 2 }, D: { x: 0, list: [1] } },
	{ name: 'arrays', a: [1, { y: 'é' }], b: [2], D: [], names: ['constructor', '__proto__'] },
	{ name: 'nested', a: { '': { deep: [[]] } }, b: { '': { deep: [[], null] } }, D: { '': { deep: [] } }, names: ['', 'length'] },
	{ name: 'text', a: { s: '"\u2028\n' }, b: { s: '🎈' }, D: { s: '' }, names: ['x', 'X'] }
]

let dom
export async function prefStoreDriver(world, conc, cfg, stores) {
	const mem = cfg.backend === 'mem'
	const m = mem ? world.shared() : (world.cached.prefStore ??= world.freshBrowser(domEnv((dom = newDom()), { addEventListener() {}, removeEventListener() {} })))
	let b = m.appTesting.justTestApp({ name: 'app' }).with(m.commands.commandsGizmoFn())
	b = mem
		? b.with(m.preferences.memoryPreferencesGizmo)
		: b.with(m.browserTesting.browserTestGizmoFn({ localStorage: m.browserTesting.stubStorage() })).with(m.browserPreferences.browserPreferencesGizmo)
	const { preferences } = await b.create()
	const copy = v => JSON.parse(JSON.stringify(v))
	const dict = { ...flat, a: conc.a, b: conc.b, D: cfg.dflt === 'obj' ? conc.D : conc.flatD }
	// a flat default may be one of the flat values: then it is that one
	const order = ['a', 'b', 'D', 'null', 'false', 'zero', 'empty', 'neg', 'text']
	const abs = v => {
		if (v === undefined) return '-'
		const c = order.find(k => equal(dict[k], v))
		if (c) return c
		try {
			return `?${JSON.stringify(v)}`
		} catch {
			return `?${String(v)}`
		}
	}
	const [k1, k2] = conc.names ?? ['key1', 'key2']
	const keyOf = { k1, k2 }
	const given = { s2: copy(dict.D), s3: copy(dict.D) }
	let turn = 0
	// the default can be set too: the very object, or one like it
	const value = c => (c === '-' ? undefined : c === 'D' && turn++ % 2 ? given.s2 : copy(dict[c]))
	const views = { s1: preferences.createStore(k1), s2: preferences.createStore(k1, given.s2), s3: preferences.createStore(k2, given.s3) }
	const boom = new Error('boom')
	const { nothing } = m.states
	const become = (d, v) => {
		if (Array.isArray(d)) d.splice(0, d.length, ...v)
		else {
			for (const k of Object.keys(d)) delete d[k]
			Object.assign(d, v)
		}
	}
	const error = e => (e === boom ? 'boom' : `other: ${e}`)
	const attempt = f => {
		try {
			const r = f()
			return r === undefined ? '-' : `returned ${String(r)}`
		} catch (e) {
			return error(e)
		}
	}
	const change = plan => plan === 'in' || plan === 'inRet' || plan === 'inThrow'
	const throws = plan => plan === 'throw' || plan === 'inThrow'
	const result = (plan, v) => (plan === 'ret' || plan === 'inRet' ? value(v) : plan === 'nothing' ? nothing : undefined)
	const early = []
	const pend = {}
	let flavour = 0
	return {
		step(e) {
			const view = views[e.x]
			switch (e.op) {
				case 'set':
					// undefined and nothing both remove
					return { seen: '-', ret: attempt(() => view.set(e.v === '-' && flavour++ % 2 ? nothing : value(e.v))) }
				case 'upd': {
					const seen = []
					const ret = attempt(() =>
						view.set((...args) => {
							seen.push(args.length === 1 ? abs(args[0]) : `${args.length} args`)
							if (change(e.plan)) become(args[0], value('b'))
							if (throws(e.plan)) throw boom
							return result(e.plan, e.v)
						})
					)
					return { seen: seen.join(), ret }
				}
				case 'begin': {
					const seen = []
					let open
					const gate = new Promise(r => (open = r))
					const first = args => {
						seen.push(args.length === 1 ? abs(args[0]) : `${args.length} args`)
						if (change(e.plan) && flavour % 2) become(args[0], value('b'))
					}
					const last = ([d]) => {
						if (change(e.plan)) become(d, value('b'))
						if (throws(e.plan)) throw boom
						return result(e.plan, e.v)
					}
					const updater =
						flavour++ % 2
							? async (...args) => {
									first(args)
									await gate
									return last(args)
								}
							: (...args) => {
									first(args)
									return gate.then(() => last(args))
								}
					let ret = attempt(() => {
						const r = view.set(updater)
						if (typeof r?.then !== 'function') return r
						const rec = (pend[e.p] = { open })
						r.then(
							x => (rec.settled = x === undefined ? 'done' : `done with ${String(x)}`),
							x => (rec.settled = error(x))
						).then(() => {
							if (!rec.asked) early.push(e.p)
						})
					})
					if (ret === '-' && pend[e.p]) ret = 'promise'
					return drain().then(() => ({ seen: seen.join(), ret }))
				}
				case 'settle': {
					const rec = pend[e.p]
					delete pend[e.p]
					rec.asked = true
					rec.open()
					return drain().then(() => ({ seen: '-', ret: rec.settled ?? 'pending' }))
				}
				case 'raw':
					return { seen: '-', ret: attempt(() => preferences.set(keyOf[e.k], e.v === '-' ? undefined : JSON.stringify(dict[e.v]))) }
				case 'clear':
					return { seen: '-', ret: attempt(() => preferences.clearAll()) }
				case 'scribble': {
					const v = view.get()
					const seen = abs(v)
					if (Array.isArray(v)) v.push('scribble')
					else v.scribble = 1
					return { seen, ret: '-' }
				}
			}
		},
		obs() {
			const get = {}
			for (const x of stores) get[x] = abs(views[x].get())
			const raw = {}
			for (const k of ['k1', 'k2']) {
				const t = preferences.get(keyOf[k])
				raw[k] = t === undefined ? '-' : abs(JSON.parse(t))
			}
			return { get, raw, early, defaults: equal(given.s2, dict.D) && equal(given.s3, dict.D) ? 'intact' : JSON.stringify(given) }
		},
		pending: p => !!pend[p],
		see: x => abs(views[x].get()),
		stored: x => preferences.get(x === 's3' ? k2 : k1) !== undefined
	}
}
export const prefStoreDriverOf = stores => (world, conc, cfg) => prefStoreDriver(world, conc, cfg, stores)
