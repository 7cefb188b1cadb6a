// Binds JustPreset.tla to presetsBrowserGizmoFn and presetsBrowserTestGizmoFn on a host app.
import { amid } from './apps.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'

const args = {
	url: ['https://api.test/x'],
	init: [new URL('https://api.test/y?z=1'), { method: 'POST', body: 'b', headers: { a: 'b' } }],
	request: [{ url: 'https://api.test/r', method: 'PUT' }],
	reject: ['https://api.test/none', undefined]
}
export const presetConcs = [
	{ name: 'test', host: m => name => m.appTesting.justTestApp({ name }), names: { A: 'app', B: 'app2' }, empty: [undefined, {}, { browser: {} }] },
	{ name: 'app', host: m => name => m.app.justApp({ name, log: { reporters: [] } }), names: { A: 'constructor', B: '@x/ü' }, empty: [{ browser: undefined, history: undefined }, { browser: { preventDefault: true } }, {}] }
]

// leaving out an argument is the same as undefined
export const sameArgs = (a, b) => !!a && Array.from({ length: Math.max(a.length, b.length) }).every((_, i) => Object.is(a[i], b[i]))

let page
export async function presetDriver(world, conc, _cfg, apps) {
	if (!page || page.uses > 60) {
		page?.dom.window.close()
		page = { dom: newDom(), uses: 0, now: {} }
		const { now } = page
		const env = domEnv(page.dom, {
			addEventListener: (...a) => now.listeners.push(a),
			removeEventListener() {},
			fetch(...a) {
				if (this !== undefined && this !== env.globalThis && this !== page.dom.window) throw new TypeError('Illegal invocation')
				return now.fetch('page', a)
			}
		})
		page.m = world.freshBrowser(env)
	}
	page.uses++
	const { m, now } = page
	const w = page.dom.window
	w.localStorage.clear()
	w.sessionStorage.clear()
	w.history.pushState(null, '', '/start')
	now.listeners = []
	let calls = []
	let answer
	now.fetch = (to, a) => {
		calls.push({ to, a })
		return answer()
	}
	const given = m.historyTesting.createMemoryHistory({ initialEntries: ['/start'] })
	const A = {}
	let flip = 0
	const paths = { p1: '/p1', p2: '/p/ü' }
	const absPath = p => {
		let d = p
		try {
			d = decodeURI(p)
		} catch {}
		return d === '/' || d === '/start' ? 'start' : (Object.keys(paths).find(k => paths[k] === d) ?? `?${p}`)
	}
	const doubles = c => {
		const local = { localStorage: m.browserTesting.stubStorage() }
		if (c.dbl === 'none') return {}
		if (c.dbl === 'local') return local
		return { ...local, sessionStorage: m.browserTesting.stubStorage(), navigator: { language: 'xx' }, location: { href: 'x:' } }
	}
	const has = (s, a) => {
		for (let i = 0; i < s.length; i++) if (s.key(i).startsWith(`${conc.names[a]}:`)) return true
		return false
	}
	return {
		async step(e) {
			const x = A[e.a]
			switch (e.op) {
				case 'create': {
					const { c } = e
					let host
					let b = conc.host(m)(conc.names[e.a])
					if (c.kb) b = b.with(m.keyboard.keyboardGizmoFn())
					b = b.with(m.commands.commandsGizmoFn())
					if (c.early === 'own') b = b.with(m.fetchTesting.fetchTestGizmoFn({ fetch: (...a) => now.fetch('early', a) }))
					if (c.early === 'page') b = b.with(flip++ % 2 ? m.fetch.fetchGizmo : m.fetchTesting.fetchTestGizmoFn())
					b = b.with({
						create(ctx) {
							host = { ...ctx }
							return {}
						}
					})
					const dbl = doubles(c)
					const browser = { ...dbl, ...(c.opt ? { fetch: (...a) => now.fetch('opt', a) } : {}) }
					const options =
						c.hist || c.opt || c.dbl !== 'none'
							? { ...(Object.keys(browser).length ? { browser } : {}), ...(c.hist ? { history: { history: given } } : {}) }
							: conc.empty[flip++ % conc.empty.length]
					b = b.with(c.p === 'real' ? m.presets.presetsBrowserGizmoFn(options) : m.presetsTesting.presetsBrowserTestGizmoFn(options))
					if (c.late) b = b.with({ create: () => ({ fetch: (...a) => now.fetch('late', a) }) })
					now.listeners.length = 0
					const no = () => calls.push({ to: 'other', a: [] })
					const others = { browser: { fetch: no, preventDefault: true, localStorage: m.browserTesting.stubStorage(), navigator: {}, location: {} }, history: { history: m.historyTesting.createMemoryHistory() } }
					let o = conc.host(m)('other')
					if (!c.kb) o = o.with(m.keyboard.keyboardGizmoFn())
					o = o.with(m.commands.commandsGizmoFn()).with({ create: () => ({ fetch: no }) }).with({ create: () => ({}) })
					o = o.with(c.p === 'real' ? m.presets.presetsBrowserGizmoFn(others) : m.presetsTesting.presetsBrowserTestGizmoFn(others))
					const app = await amid(b, o)
					A[e.a] = { app, c, dbl }
					const place = {}
					for (const k of ['localStorage', 'sessionStorage', 'navigator', 'location']) {
						const v = app.browser?.[k]
						place[k] = k in dbl && v === dbl[k] ? 'double' : v === w[k] ? 'page' : '?'
					}
					return {
						op: 'create',
						host: ['name', 'id', 'log', 'commands', 'keyboard'].every(k => Object.is(app[k], host[k])),
						kb: app.keyboard !== undefined,
						adds:
							typeof app.fetch === 'function' &&
							['get', 'set', 'clearAll', 'createStore'].every(k => typeof app.preferences?.[k] === 'function') &&
							['push', 'listen'].every(k => typeof app.history?.[k] === 'function') &&
							(app.history === given) === c.hist &&
							Array.isArray(app.browser?.errors?.get?.()),
						events: now.listeners.filter(l => l[0] === 'error').length / 2,
						place
					}
				}
				case 'fetch': {
					calls = []
					const res = { ok: true }
					const err = new Error('no network')
					answer = e.k === 'reject' ? () => Promise.reject(err) : () => Promise.resolve(res)
					const f = x.app.fetch
					// as a method, or on its own
					const p = flip++ % 2 ? f(...args[e.k]) : x.app.fetch(...args[e.k])
					const got = await p.then(
						r => r === res && e.k !== 'reject',
						r => r === err && e.k === 'reject'
					)
					const a = calls[0]?.a ?? []
					return {
						op: 'fetch',
						to: calls[0]?.to ?? 'none',
						calls: calls.length,
						args: sameArgs(a, args[e.k]),
						result: got
					}
				}
				case 'push':
					x.app.history.push(paths[e.path])
					return { op: 'push', shows: absPath(x.app.history.location.pathname) === e.path }
				case 'pref':
					x.app.preferences.set('k', e.v === 'set' ? 'v' : undefined)
					return { op: 'quiet' }
			}
		},
		obs() {
			const mem = {}
			const prefs = {}
			for (const a of apps) {
				const x = A[a]
				mem[a] = x && !x.c.hist && x.c.p === 'test' ? absPath(x.app.history.location.pathname) : 'no'
				const onPage = has(w.localStorage, a)
				const onDouble = !!x?.dbl.localStorage && has(x.dbl.localStorage, a)
				prefs[a] = onPage ? (onDouble ? 'both' : 'page') : onDouble ? 'double' : 'none'
			}
			return { page: absPath(w.location.pathname), given: absPath(given.location.pathname), mem, prefs }
		}
	}
}
export const presetDriverOf = apps => (world, conc, cfg) => presetDriver(world, conc, cfg, apps)
