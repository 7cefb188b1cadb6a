// Binds JustReach.tla to fetchGizmo, fetchTestGizmoFn, browserGizmoFn, browserTestGizmoFn and historyGizmoFn.
import { amid } from './apps.mjs'
import { sameArgs as same } from './preset.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'

const long = '/long/'.repeat(80)
export const reachConcs = [
	{
		name: 'test',
		host: m => name => m.appTesting.justTestApp({ name }),
		args: { url: ['https://api.test/x'], init: [new URL('https://api.test/y?z=1'), { method: 'POST', body: 'b', headers: { a: 'b' } }], request: [{ url: 'https://api.test/r', method: 'PUT' }], reject: ['https://api.test/none', undefined] },
		paths: { p1: '/p1', p2: '/p/ü' },
		opt: () => undefined
	},
	{
		name: 'app',
		host: m => name => m.app.justApp({ name, log: { reporters: [] } }),
		args: { url: ['/relative?q=ü#h'], init: ['', {}], request: [{ url: '', signal: {} }], reject: [new URL('https://api.test/none')] },
		paths: { p1: { pathname: '/deep/a b', search: '?q=1', hash: '#h' }, p2: long },
		opt: () => ({})
	}
]

let page
export async function reachDriver(world, conc, _cfg, apps) {
	if (!page || page.uses > 60) {
		page?.dom.window.close()
		page = { dom: newDom(), uses: 0, now: {} }
		const { now } = page
		const env = domEnv(page.dom, { addEventListener() {}, removeEventListener() {} })
		const own = v =>
			function (...a) {
				if (this !== undefined && this !== env.globalThis && this !== page.dom.window) throw new TypeError('Illegal invocation')
				return now.fetch({ to: 'page', ver: v }, a)
			}
		page.versions = [own(0), own(1), own(2)]
		page.global = env.globalThis
		page.global.fetch = page.versions[0]
		page.m = world.freshBrowser(env)
	}
	page.uses++
	const { m, now } = page
	const w = page.dom.window
	page.global.fetch = page.versions[0]
	w.history.pushState(null, '', '/start')
	let calls = []
	let answer
	now.fetch = (to, a) => {
		calls.push({ to, a })
		return answer(a)
	}
	const given = Object.fromEntries(['g1', 'g2'].map(g => [g, m.historyTesting.createMemoryHistory({ initialEntries: ['/start'] })]))
	const A = {}
	let flip = 0
	let ev = {}
	const text = l => {
		const p = `${l.pathname}${l.search ?? ''}${l.hash ?? ''}`
		try {
			return decodeURI(p)
		} catch {
			return p
		}
	}
	const pathText = p => (typeof p === 'string' ? p : text(p))
	const absPath = l => (text(l) === '/start' ? 'start' : (Object.keys(conc.paths).find(k => pathText(conc.paths[k]) === text(l)) ?? `?${text(l)}`))
	const to = (name, t) => (...a) => now.fetch({ to: t, ver: 0 }, a)
	const opt = (name, t) => ({ fetch: to(name, t) })
	const fetchGizmo = {
		real: () => m.fetch.fetchGizmo,
		double: () => m.fetchTesting.fetchTestGizmoFn(conc.opt()),
		own1: () => m.fetchTesting.fetchTestGizmoFn(opt('own', 'own1')),
		own2: () => m.fetchTesting.fetchTestGizmoFn(opt('own', 'own2')),
		browser: () => m.browser.browserGizmoFn(conc.opt()),
		browserOpt: () => m.browser.browserGizmoFn(opt('opt', 'opt')),
		browserTest: () => m.browserTesting.browserTestGizmoFn(conc.opt()),
		browserTestOpt: () => m.browserTesting.browserTestGizmoFn(opt('opt', 'opt'))
	}
	// the page tells of going back and forward later
	const popped = () =>
		new Promise(r => {
			const t = setTimeout(r, 2000)
			w.addEventListener('popstate', () => (clearTimeout(t), setImmediate(r)), { once: true })
		})
	return {
		async step(e) {
			const x = A[e.a]
			switch (e.op) {
				case 'create': {
					let b = conc.host(m)(`app-${e.a}`)
					for (const k of e.f) b = b.with(fetchGizmo[k]())
					for (const k of e.h) b = b.with(m.history.historyGizmoFn(k === 'page' ? undefined : { history: given[k] }))
					// the same gizmos, given others
					let o = conc.host(m)('other')
					const no = () => calls.push({ to: 'other', a: [] })
					for (const k of e.f) o = o.with({ own: m.fetchTesting.fetchTestGizmoFn({ fetch: no }), browser: m.browser.browserGizmoFn({ fetch: no }), browserTest: m.browserTesting.browserTestGizmoFn({ fetch: no }) }[k.replace(/Opt$|[12]$/, '')] ?? { create: () => ({ fetch: no }) })
					for (const _ of e.h) o = o.with(m.history.historyGizmoFn({ history: m.historyTesting.createMemoryHistory() }))
					const app = await amid(b, o)
					const h = app.history
					A[e.a] = { app, h: e.h.at(-1), ls: {} }
					return {
						op: 'create',
						fetch: typeof app.fetch === 'function',
						history: h === undefined ? 'none' : (Object.keys(given).find(g => given[g] === h) ?? (typeof h.push === 'function' ? 'page' : '?'))
					}
				}
				case 'pageFetch':
					page.global.fetch = page.versions[e.ver]
					return { op: 'quiet' }
				case 'fetch': {
					calls = []
					const call = (...a) => {
						const f = x.app.fetch
						// as a method, or on its own
						return flip++ % 2 ? f(...a) : x.app.fetch(...a)
					}
						let args
					let result
					if (e.k === 'two' || e.k === 'twin') {
						const second = conc.args[e.k === 'twin' ? 'url' : 'init']
						const pend = []
						answer = () => new Promise(r => pend.push(r))
						const one = call(...conc.args.url)
						const two = call(...second)
						const r1 = { ok: true }
						const r2 = { ok: false }
						pend[1]?.(r2)
						pend[0]?.(r1)
						args = same(calls[0]?.a, conc.args.url) && same(calls[1]?.a, second)
						result = (await one) === r1 && (await two) === r2
					} else {
						const res = { ok: true }
						const err = new Error('no network')
						answer = e.k === 'reject' ? () => Promise.reject(err) : () => Promise.resolve(res)
						result = await call(...conc.args[e.k]).then(
							r => r === res && e.k !== 'reject',
							r => r === err && e.k === 'reject'
						)
						args = same(calls[0]?.a, conc.args[e.k])
					}
					const tos = calls.map(c => JSON.stringify(c.to))
					return { op: 'fetch', to: new Set(tos).size === 1 ? calls[0].to : tos, calls: calls.length, args, result }
				}
				case 'listen':
					x.ls[e.l] = x.app.history.listen(({ action, location }) => {
						;(ev[e.a] ??= []).push({ l: e.l, action, path: absPath(location) })
					})
					return { op: 'quiet' }
				case 'unlisten':
					x.ls[e.l]()
					return { op: 'quiet' }
				default: {
					ev = {}
					const h = x.app.history
					const done = x.h === 'page' && e.path === undefined ? popped() : undefined
					if (e.path === undefined) h[e.op]()
					else h[e.op](conc.paths[e.path])
					await done
					return {
						op: 'move',
						shows: { path: absPath(h.location), action: h.action },
						ev: Object.fromEntries(apps.map(a => [a, [...(ev[a] ?? [])]]))
					}
				}
			}
		},
		obs() {
			return { page: absPath(w.location), g1: absPath(given.g1.location), g2: absPath(given.g2.location) }
		}
	}
}
export const reachDriverOf = apps => (world, conc, cfg) => reachDriver(world, conc, cfg, apps)
