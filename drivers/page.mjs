// Binds JustPage.tla to apps with every plugin, created on one page.
import { domEnv, newDom } from '../lib/bundle.mjs'
import { drain, ticks } from '../lib/harness.mjs'
import { more } from '../lib/wide.mjs'

const ids = more({ c1: 'a.run', c2: 'constructor' }, 'c', 10)
// an app may be given commands when it is created
const base = (m, a) => {
	const id = `init.${a}`
	return a
		? [m.keyboard.keyboardGizmoFn({ keyBindingContributions: [{ id, key: 'x' }] }), m.commands.commandsGizmoFn({ contributions: [{ id }], handlers: { [id]() {} } })]
		: [m.keyboard.keyboardGizmoFn(), m.commands.commandsGizmoFn()]
}
const memory = { gizmos: (m, a) => [...base(m, a), m.preferences.memoryPreferencesGizmo, m.i18n.i18nGizmoFn({ language: 'en-US' }), m.routes.routesGizmo, m.events.eventsGizmoFn()] }
const browser = {
	gizmos: (m, a) => [...base(m, a), m.browser.browserGizmoFn(), m.browserPreferences.browserPreferencesGizmo, m.browserI18n.browserI18nGizmo, m.routes.routesGizmo, m.events.eventsGizmoFn()]
}
const preset = { gizmos: (m, a) => [...base(m, a), m.presets.presetsBrowserGizmoFn(), m.browserI18n.browserI18nGizmo, m.routes.routesGizmo, m.events.eventsGizmoFn()] }
const presetTest = {
	gizmos: (m, a) => [...base(m, a), m.presetsTesting.presetsBrowserTestGizmoFn({ history: { history: m.historyTesting.createMemoryHistory() } }), m.browserI18n.browserI18nGizmo, m.routes.routesGizmo, m.events.eventsGizmoFn()]
}
/** the apps share what they are made with */
const sharing = kind => {
	const made = new WeakMap()
	return {
		gizmos(m) {
			if (!made.has(m)) made.set(m, kind.gizmos(m))
			return made.get(m)
		}
	}
}
const options = { language: 'en-US', contributions: [], handlers: {}, keyBindingContributions: [], dataSources: [] }
const sharedOptions = {
	gizmos: m => [
		m.keyboard.keyboardGizmoFn(options),
		m.commands.commandsGizmoFn(options),
		m.preferences.memoryPreferencesGizmo,
		m.i18n.i18nGizmoFn(options),
		m.routes.routesGizmo,
		m.events.eventsGizmoFn(options)
	]
}
// each app is given what is its own
const tests = {
	gizmos(m, a) {
		const given = {
			browser: { localStorage: m.browserTesting.stubStorage(), sessionStorage: m.browserTesting.stubStorage(), navigator: { language: 'en-US', a }, location: { a }, fetch: () => a, preventDefault: a === 'A' },
			history: m.historyTesting.createMemoryHistory()
		}
		let lang
		return [
			m.keyboard.keyboardGizmoFn(),
			m.commands.commandsGizmoFn(),
			m.osTesting.osTestGizmoFn({ isMac: () => a === 'A' }),
			m.presetsTesting.presetsBrowserTestGizmoFn({ browser: given.browser, history: { history: given.history } }),
			m.browserI18n.browserI18nGizmo,
			m.formatjs.formatJSGizmoFn({ config: { locale: a === 'A' ? 'fr' : 'de', messages: { a } } }),
			m.routes.routesGizmo,
			m.events.eventsGizmoFn(),
			{
				create(app) {
					lang = app.formatjs.intl
					return {
						own: x =>
							['localStorage', 'sessionStorage', 'navigator', 'location'].every(k => x.browser[k] === given.browser[k]) &&
							x.history === given.history &&
							x.fetch() === a &&
							x.os.isMac() === (a === 'A') &&
							x.formatjs.intl === lang &&
							lang.formatMessage({ id: 'a' }) === a
					}
				}
			}
		]
	}
}
const sharedMemory = sharing(memory)
const sharedBrowser = sharing(browser)
export const pageConcs = [
	{ name: 'memory', kinds: [memory, memory, memory], names: ['a', 'b', 'ab'] },
	{ name: 'browser', kinds: [browser, browser, browser], names: ['shell', 'shell2', 'sh'] },
	{ name: 'shared gizmos', kinds: [sharedMemory, sharedMemory, sharedBrowser], names: ['x', 'x1', 'X'] },
	{ name: 'shared browser gizmos', kinds: [sharedBrowser, sharedBrowser, sharedBrowser], names: ['y', 'y1', 'Y'] },
	{ name: 'shared options', kinds: [sharedOptions, sharedOptions, sharedMemory], names: ['x', 'x.y', 'y'] },
	// every app comes with its own copy of the packages
	{ name: 'copies', copies: true, kinds: [browser, preset, browser], names: ['shell', 'shell.remote', 'remote'] },
	{ name: 'given', kinds: [tests, tests, tests], names: ['g', 'g.h', 'h'] },
	{ name: 'mixed', real: true, kinds: [browser, memory, preset], names: ['constructor', 'x', '@jw/x'] },
	{ name: 'preset', kinds: [preset, presetTest, browser], names: ['app', 'APP', 'äpp'] }
]
const K = more({ k1: 'theme', k2: 'theme:2' }, 'k', 12)
const V = more({ v1: 'dark', v2: '' }, 'v', 10)
const L = more({ l1: 'fr', l2: 'zh-TW' }, 'l', 10)
const R = more({ r1: '/', r2: '/x' }, 'r', 12)

const inits = (x, id) => [x.commands.handlers, x.commands.contributions, x.keyboard.keyBindingContributions].filter(r => r.has(id)).length
let page
export async function pageDriver(world, conc, _cfg, apps) {
	if (!page || page.uses > 80) {
		page?.dom.window.close()
		page = { dom: newDom(), uses: 0, ms: [] }
	}
	page.uses++
	const copy = i => (page.ms[i] ??= world.freshBrowser(domEnv(page.dom, { addEventListener() {}, removeEventListener() {} })))
	const mOf = a => copy(conc.copies ? apps.indexOf(a) : 0)
	const m = copy(0)
	page.dom.window.localStorage.clear()
	page.dom.window.localStorage.setItem('other', 'x')
	const { logLevels } = m.app
	let ran = []
	const X = {}
	const reporters = {}
	// commands known to every app
	const made = m => Object.fromEntries(Object.entries(ids).map(([c, id]) => [c, m.commands.command({ id, key: 'ctrl+j' })]))
	const shared = made(m)
	const commandsOf = Object.fromEntries(apps.map(a => [a, mOf(a) === m ? shared : made(mOf(a))]))
	let flip = 0
	const alt = n => flip++ % n
	const routes = {}
	const total = () => Object.fromEntries(apps.map(a => [a, (X[a] && reporters[a].logs.length) ?? 0]))
	const run = (a, what) => () => void ran.push({ a, what })
	const nameOf = a => conc.names[apps.indexOf(a)]
	const making = {}
	// with something among its gizmos that takes its time
	const builderOf = (a, gate) => {
		const m = mOf(a)
		let b
		if (conc.real) {
			// what code of no app logs below that goes to the log of the first app
			const reporter = m.app.createMemoryLogReporter()
			reporters[a] = reporter
			b = m.app.justApp({ name: nameOf(a), log: { logLevel: logLevels.debug, reporters: [reporter] } })
		} else b = m.appTesting.justTestApp({ name: nameOf(a), log: { logLevel: logLevels.all } })
		const gizmos = conc.kinds[apps.indexOf(a)].gizmos(m, a)
		const at = gate ? alt(gizmos.length + 1) : -1
		gizmos.forEach((g, i) => {
			if (i === at) b = b.with(gate)
			b = b.with(g)
		})
		return at === gizmos.length ? b.with(gate) : b
	}
	const tidy = name => name.replace(/[~!#$%^&*()=+[\]{},|<>?]/g, '-')
	const finished = (a, app) => {
		X[a] = app
		reporters[a] ??= app.log.reporter
		routes[a] = {}
		app.i18n.languageChanged(run(a, 'lang'))
		app.events.emitter.on('e', run(a, 'event'))
		app.events.emitter.on('t', () => {
			ran.push({ a, what: 'event' })
			throw new Error(a)
		})
		const name = tidy(nameOf(a))
		return app.name === nameOf(a) && reporters[a].logs.every(l => l.id === name || l.id.startsWith(`${name}:`)) && createdOnce(a, app) && (!app.own || app.own(app))
	}
	const createdOnce = (a, app) => reporters[a].logs.filter(l => l.args.some(x => typeof x === 'string' && x.includes(app.id))).length === 1
	return {
		async step(e) {
			ran = []
			const before = total()
			const { a } = e
			const x = X[a]
			let own = true
			const id = e.c && ids[e.c]
			const newLogs = () => reporters[a].logs.slice(before[a])
			switch (e.op) {
				case 'create':
					own = finished(a, await builderOf(a).create())
					break
				case 'all': {
					const all = apps.filter(b => !X[b] && !making[b])
					const started = []
					for (const b of alt(2) ? all : all.toReversed()) {
						started.push([b, builderOf(b).create()])
						const n = [0, 0, 1, 0, 3][alt(5)]
						if (n) await ticks(n)
					}
					for (const [b, app] of started) own = finished(b, await app) && own
					for (const b of all) before[b] = total()[b]
					break
				}
				case 'begin': {
					const gate = { create: () => new Promise(r => (making[a].release = r)) }
					making[a] = {}
					making[a].app = builderOf(a, gate).create()
					await drain()
					break
				}
				case 'finish': {
					const { app, release } = making[a]
					delete making[a]
					release({})
					own = finished(a, await app)
					break
				}
				case 'together': {
					const all = Object.entries(making)
					for (const b of Object.keys(making)) delete making[b]
					for (const [, { release }] of alt(2) ? all : all.toReversed()) {
						release({})
						const n = [0, 0, 1, 2, 0, 4, 7][alt(7)]
						if (n) await ticks(n)
					}
					const done = await Promise.all(all.map(([, { app }]) => app))
					own = all.map(([b], i) => finished(b, done[i])).every(Boolean)
					for (const [b] of all) before[b] = total()[b]
					break
				}
				case 'pref': {
					const v = e.v === 'none' ? undefined : V[e.v]
					const way = alt(4)
					if (way === 0) x.preferences.set(K[e.k], v)
					else if (way === 1) x.preferences.set(K[e.k], () => v ?? mOf(a).states.nothing)
					else if (way === 2) x.commands.handlers.invoke('just-web.setUserPreference', K[e.k], v)
					else if (v !== undefined) {
						// a store keeps its value as JSON
						x.preferences.createStore(K[e.k]).set(v)
						own = x.preferences.get(K[e.k]) === JSON.stringify(v) && x.preferences.createStore(K[e.k]).get() === v
						x.preferences.set(K[e.k], v)
					} else x.preferences.createStore(K[e.k]).set(undefined)
					break
				}
				case 'clear':
					if (alt(2)) x.preferences.clearAll()
					else x.commands.handlers.invoke('just-web.clearAllUserPreferences')
					break
				case 'lang':
					if (alt(2)) x.i18n.setLanguage(L[e.l])
					else x.commands.handlers.invoke('@just-web/i18n/set-language', L[e.l])
					break
				case 'unlang':
					if (x.i18n.clearLanguage) x.i18n.clearLanguage()
					else x.i18n.setLanguage('en-US')
					break
				case 'handler':
					x.commands.handlers.register(id, run(a, e.c))
					break
				case 'connect':
					commandsOf[a][e.c].connect(x, run(a, e.c))
					break
				case 'contrib':
					x.commands.contributions.add({ id, title: a })
					break
				case 'keyb':
					x.keyboard.keyBindingContributions.add({ id, key: 'ctrl+k' })
					break
				case 'run':
					x.commands.handlers.invoke(id, a)
					own = newLogs().filter(l => l.level === logLevels.error).length === (ran.length ? 0 : 1)
					break
				case 'palette':
					mOf(a).commands.showCommandPalette.connect(x, run(a, 'palette'))
					break
				case 'show':
					if (alt(2)) x.commands.showCommandPalette()
					else x.commands.handlers.invoke('just-web.showCommandPalette')
					own = newLogs().filter(l => l.level === logLevels.error).length === (ran.length ? 0 : 1)
					break
				case 'route':
					if (x.routes.hasRoute(R[e.r])) x.routes.register(R[e.r], run('?', 'refused'))
					else routes[a][e.r] = x.routes.register(R[e.r], run(a, e.r))
					break
				case 'unroute':
					routes[a][e.r]?.()
					delete routes[a][e.r]
					break
				case 'unroutes':
					x.routes.clearRoutes()
					break
				case 'go':
					x.routes.navigate(R[e.r])
					own = newLogs().filter(l => l.level === logLevels.error).length === (ran.length ? 0 : 1)
					break
				case 'emit':
					x.events.emitter.emit('e', a)
					break
				case 'emitThrow':
					x.events.emitter.emit('t', a)
					own = newLogs().filter(l => l.level === logLevels.error).length === 1
					break
				case 'log':
					x.log.warn('hi', a)
					own = newLogs().length === 1 && newLogs()[0].id === tidy(nameOf(a))
					break
			}
			const after = total()
			return { ran, foreign: apps.reduce((n, b) => n + (b === a ? 0 : after[b] - before[b]), 0), own }
		},
		obs() {
			const { ks, cs, rs } = conc
			const abs = (t, v) => Object.keys(t).find(k => t[k] === v) ?? `?${v}`
			return Object.fromEntries(
				apps.map(a => {
					const x = X[a]
					const f = (xs, g) => Object.fromEntries(xs.map(k => [k, x ? g(k) : false]))
					return [
						a,
						{
							making: !!making[a],
							up: !!x && apps.every(b => b === a || !inits(x, `init.${b}`)) && [0, 3].includes(inits(x, `init.${a}`)),
							prefs: Object.fromEntries(
								ks.map(k => {
									const v = x?.preferences.get(K[k])
									return [k, v === undefined ? 'none' : abs(V, v)]
								})
							),
							lang: !x || x.i18n.getLanguage() === 'en-US' ? 'init' : abs(L, x.i18n.getLanguage()),
							handlers: f(cs, c => x.commands.handlers.has(ids[c])),
							contribs: f(cs, c => x.commands.contributions.has(ids[c])),
							keybs: f(cs, c => x.keyboard.keyBindingContributions.has(ids[c])),
							routes: f(rs, r => x.routes.hasRoute(R[r])),
							palette: x ? x.commands.handlers.has('just-web.showCommandPalette') : false
						}
					]
				})
			)
		}
	}
}
export const pageDriverOf = apps => (world, conc, cfg) => pageDriver(world, conc, cfg, apps)
