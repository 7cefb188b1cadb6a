// Binds JustPrefs.tla to the memory and the browser preferences.
import { createAll } from './apps.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'
import { more, range } from '../lib/wide.mjs'
import { drain } from '../lib/harness.mjs'

export const prefsConcs = [
	{ name: 'plain', names: ['app', 'app2'], keys: ['color', 'size'], v1: 'dark', foreign: ['app', 'dark'] },
	{ name: 'inherited', together: true, names: ['a', 'a-b'], keys: ['constructor', '__proto__'], v1: '🎨 téma ß', foreign: ['color', '{"dark":1}'] },
	{ name: 'odd', together: true, names: ['xx', 'x'], keys: ['', ' '], v1: '\u0000=%\n"日本', foreign: [' x:length', ''] },
	{ name: 'colon', names: ['@scope/app', '@Scope/App'], keys: ['k:1', 'K:1 '], v1: ' undefined ', foreign: ['@scope/app', 'x'] }
]

// every sort of character
const ALL = Array.from({ length: 0xd800 / 16 }, (_, n) => String.fromCharCode(n * 16 + (n % 16))).join('') + '\uFEFF\r\na\rb\n\u2028\u00a0\u200b\u200d\uE000\uFFFD\uFFFF\u{1F9D1}\u{10FFFF} \uFEFF'

/** many keys */
export const prefsWide = () => {
	const keys = range('k', 36)
	return { keys, concs: prefsConcs.map(c => ({ ...c, crowd: 150, keys: Object.values(more({ k1: c.keys[0], k2: c.keys[1] }, 'k', 36)) })) }
}

// errors are not of interest here, and the many apps of one window would leave many listeners
const page = (world, dom) => world.freshBrowser(domEnv(dom, { addEventListener() {}, removeEventListener() {} }))
const doms = {}
const FRESH = 60
export async function prefsDriver(world, conc, cfg, insts = ['A']) {
	const [A, B] = conc.names
	const nameOf = { A, B, C: A, D: `${B}${A}`, F: `${A} x`, G: `${'long'.repeat(50)}1`, H: `${'long'.repeat(50)}2`, I: `${A}_x`, J: 'ключ', K: 'клич' }
	const dict = { v1: conc.v1, E: '', '-': undefined, D: 'the default', v2: '0', L: conc.v1.repeat(2000), W: ALL }
	const abs = v => Object.keys(dict).find(k => dict[k] === v) ?? `?${String(v)}`
	const quota = new Error('quota exceeded')
	const boom = new Error('boom')
	let failing = false
	let m
	let storage
	let dom
	if (cfg.backend === 'mem') m = world.shared()
	else {
		let d = doms[cfg.backend]
		if (!d || d.uses > FRESH) {
			d?.dom.window.close()
			d = doms[cfg.backend] = { dom: newDom(), uses: 0 }
		}
		d.uses++
		dom = d.dom
		dom.window.localStorage.clear()
		m = page(world, dom)
		if (cfg.backend === 'stub') {
			storage = m.browserTesting.stubStorage()
			const setItem = storage.setItem
			storage.setItem = (...args) => {
				if (failing) throw quota
				return setItem.apply(storage, args)
			}
		} else {
			storage = dom.window.localStorage
			const proto = dom.window.Storage.prototype
			const setItem = (proto.jwSetItem ??= proto.setItem)
			proto.setItem = function (...args) {
				if (failing) throw quota
				return setItem.apply(this, args)
			}
		}
	}
	let apps
	const load = async () => {
		const builders = {}
		for (const i of insts) {
			let b = m.appTesting.justTestApp({ name: nameOf[i] }).with(m.commands.commandsGizmoFn())
			if (cfg.backend === 'mem') b = b.with(m.preferences.memoryPreferencesGizmo)
			else {
				b = cfg.backend === 'stub' ? b.with(m.browserTesting.browserTestGizmoFn({ localStorage: storage })) : b.with(m.browser.browserGizmoFn())
				b = b.with(m.browserPreferences.browserPreferencesGizmo)
			}
			builders[i] = b
		}
		apps = await createAll(builders, conc.together)
	}
	await load()
	let early = []
	let pend = {}
	let flavour = 0
	const { nothing } = m.states
	const error = e => (e === boom ? 'boom' : e === quota ? 'quota' : `other: ${e}`)
	// what other code has in the storage
	const crowd = Array.from({ length: conc.crowd ?? 1 }, (_, n) => (n ? `${conc.foreign[0]}~${n}` : conc.foreign[0]))
	const attempt = f => {
		try {
			const r = f()
			return r === undefined ? '-' : `returned ${String(r)}`
		} catch (e) {
			return error(e)
		}
	}
	const result = (plan, v) => (plan === 'ret' ? dict[v] : plan === 'nothing' ? nothing : undefined)
	return {
		step(e) {
			const prefs = apps[e.i]?.preferences
			const key = conc.keys[Number(e.k?.slice(1)) - 1]
			switch (e.op) {
				case 'set':
					return { seen: '-', ret: attempt(() => prefs.set(key, dict[e.v])) }
				case 'nothing':
					return { seen: '-', ret: attempt(() => prefs.set(key, nothing)) }
				case 'upd': {
					const seen = []
					const ret = attempt(() =>
						prefs.set(key, (...args) => {
							seen.push(args.length === 1 ? abs(args[0]) : `${args.length} args`)
							if (e.plan === 'throw') throw boom
							return result(e.plan, e.v)
						})
					)
					return { seen: seen.join(), ret }
				}
				case 'begin': {
					const seen = []
					let open
					let fail
					const gate = new Promise((res, rej) => {
						open = res
						fail = rej
					})
					const first = args => seen.push(args.length === 1 ? abs(args[0]) : `${args.length} args`)
					const updater =
						flavour++ % 2
							? async (...args) => {
									first(args)
									return await gate
								}
							: (...args) => {
									first(args)
									return gate
								}
					const p = attempt(() => {
						const r = prefs.set(key, updater)
						if (typeof r?.then !== 'function') return r
						const rec = { settled: undefined }
						r.then(
							x => (rec.settled = x === undefined ? 'done' : `done with ${String(x)}`),
							x => (rec.settled = error(x))
						).then(() => {
							if (!rec.asked) early.push(e.p)
						})
						rec.go = () => {
							rec.asked = true
							if (e.plan === 'throw') fail(boom)
							else open(result(e.plan, e.v))
						}
						pend[e.p] = rec
					})
					const ret = pend[e.p] && p === '-' ? 'promise' : p
					return drain().then(() => ({ seen: seen.join(), ret }))
				}
				case 'settle': {
					const rec = pend[e.p]
					delete pend[e.p]
					rec.go()
					return drain().then(() => ({ seen: '-', ret: rec.settled ?? 'pending' }))
				}
				case 'clear':
					return { seen: '-', ret: attempt(() => prefs.clearAll()) }
				case 'fault':
					failing = e.on
					return { seen: '-', ret: '-' }
				case 'other': {
					const on = failing
					failing = false
					const there = storage.getItem(crowd[0]) !== null
					for (const k of crowd)
						if (there) storage.removeItem(k)
						else storage.setItem(k, conc.foreign[1])
					failing = on
					return { seen: '-', ret: '-' }
				}
				case 'reload':
					pend = {}
					doms[cfg.backend].uses++
					m = page(world, dom)
					return load().then(() => ({ seen: '-', ret: '-' }))
			}
		},
		obs() {
			const get = {}
			for (const i of insts) {
				get[i] = {}
				conc.keys.slice(0, this.keyCount).forEach((k, n) => {
					get[i][`k${n + 1}`] = { dflt: abs(apps[i].preferences.get(k, dict.D)), bare: abs(apps[i].preferences.get(k)) }
				})
			}
			let entries = 0
			let plain = 0
			const foreign = {}
			if (storage) {
				const v = conc.foreign[1]
				for (let n = 0; n < storage.length; n++) {
					const k = storage.key(n)
					if (crowd.includes(k)) continue
					entries++
					const text = storage.getItem(k)
					if (text !== '' && Object.values(dict).includes(text)) plain++
				}
				if (this.foreign) {
					const all = new Set(crowd.map(k => storage.getItem(k)))
					foreign.f1 = all.size > 1 ? 'changed' : all.has(null) ? false : all.has(v) || 'changed'
				}
			}
			return { get, early, entries, plain, foreign: storage || !this.foreign ? foreign : { f1: false } }
		},
		pending: p => !!pend[p],
		anyPending: () => Object.keys(pend),
		failing: () => failing,
		foreign: false,
		keyCount: 2,
		close() {
			failing = false
		}
	}
}

export const prefsDriverOf = (insts, foreign, keyCount = 2) => async (world, conc, cfg) => Object.assign(await prefsDriver(world, conc, cfg, insts), { foreign, keyCount })
