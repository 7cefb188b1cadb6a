// Binds JustBuiltin.tla to the commands of the packages, in apps of one page.
import { domEnv, newDom } from '../lib/bundle.mjs'
import { makeApp, pageLog } from './apps.mjs'
import { stroke, UA } from './keyboard.mjs'

const IDS = {
	show: 'just-web.showCommandPalette',
	get: 'just-web.getUserPreference',
	set: 'just-web.setUserPreference',
	clear: 'just-web.clearAllUserPreferences',
	lang: '@just-web/i18n/set-language'
}
const TITLES = { show: 'Show command palette', clear: 'Clear all user preferences', lang: 'Set locale language' }
const V = { v1: 'dark', v2: '', v3: 'light' }
const L = { l1: 'fr', l2: 'zh-TW' }
const KEYS = { win: { std: 'ctrl+k', mine: 'x' }, mac: { std: 'meta+k', mine: 'x' } }

export const builtinConcs = [
	{ name: 'memory', os: 'win', names: ['a', 'b', 'c'] },
	{ name: 'browser', os: 'win', browser: true, names: ['shell', 'shell2', 'x'] },
	{ name: 'mac', os: 'mac', names: ['a', 'a.b', '@jw/x'] },
	{ name: 'i18n first', os: 'mac', browser: true, i18nFirst: true, names: ['x', 'X', 'xx'] }
]

const keyb = k => !['plain', 'memory', 'lang'].includes(k)
const given = k => ['mine', 'mineBare'].includes(k)
function gizmos(m, conc, k, user) {
	const ids = Object.entries(IDS)
	const prefs = ['memory', 'full', 'mine'].includes(k)
		? conc.browser
			? [m.browserPreferences.browserPreferencesGizmo]
			: [m.preferences.memoryPreferencesGizmo]
		: ['bare', 'mineBare'].includes(k)
			? [m.preferences.preferencesGizmo]
			: []
	const i18n = ['full', 'mine', 'lang'].includes(k) ? [conc.browser ? m.browserI18n.browserI18nGizmo : m.i18n.i18nGizmoFn({ language: 'en-US' })] : []
	return [
		m.os.osGizmo,
		...(conc.browser ? [m.browser.browserGizmoFn()] : []),
		...(keyb(k) ? [m.keyboard.keyboardGizmoFn(given(k) ? { keyBindingContributions: [{ id: IDS.show, key: 'x', mac: 'x' }] } : undefined)] : []),
		m.commands.commandsGizmoFn(
			given(k)
				? {
						contributions: ids.map(([c, id]) => ({ id, title: `Mine ${c}` })),
						handlers: Object.fromEntries(ids.map(([c, id]) => [id, user(c)]))
					}
				: undefined
		),
		...(conc.i18nFirst ? [...i18n, ...prefs] : [...prefs, ...i18n]),
		...(keyb(k) ? [m.browserKeyboard.browserKeyboardGizmo] : [])
	]
}

const doms = {}
export async function builtinDriver(world, conc, apps) {
	let d = doms[conc.os]
	if (!d || d.uses > 60) {
		d?.dom.window.close()
		d = doms[conc.os] = { dom: newDom({ userAgent: UA[conc.os] }), uses: 0 }
	}
	d.uses++
	const { dom } = d
	dom.window.localStorage.clear()
	const m = world.freshBrowser(domEnv(dom, { addEventListener() {}, removeEventListener() {} }))
	const page = await pageLog(m)
	const { logLevels } = m.app
	const X = {}
	const kinds = {}
	let ran = []
	let seen = {}
	const errors = x => x.log.reporter.logs.filter(l => l.level === logLevels.error).length
	const abs = (t, v) => (v === undefined ? 'none' : (Object.keys(t).find(k => t[k] === v) ?? `?${String(v)}`))
	const args = (c, xs) => {
		if (c === 'show' || c === 'clear') return xs.length ? `?${xs.length}` : 'none'
		if (c === 'lang') return xs.length === 1 ? abs(L, xs[0]) : `?${xs.length}`
		if (xs[0] !== 'theme' || xs.length > 2) return `?${xs.length}`
		return abs(V, xs[1])
	}
	const runs = (a, c, h) => (...xs) => {
		ran.push({ a, c, h, v: args(c, xs) })
		return c === 'get' ? 'user' : undefined
	}
	let flip = 0
	const FN = {
		show: m.commands.showCommandPalette,
		get: m.preferences.getUserPreference,
		set: m.preferences.setUserPreference,
		clear: m.preferences.clearAllUserPreferences,
		lang: m.i18n.setLanguageCommand
	}
	const given = (c, v) => (c === 'lang' ? [L[v]] : c === 'get' ? (v === 'none' ? ['theme'] : ['theme', V[v]]) : c === 'set' ? ['theme', V[v]] : [])
	const own = (x, c) => (c === 'show' ? () => x.commands.showCommandPalette() : { get: x.preferences?.get, set: x.preferences?.set, clear: x.preferences?.clearAll }[c])
	const res = (c, v) => (c !== 'get' || v === undefined ? 'none' : v === 'user' ? 'user' : abs(V, v))
	return {
		async step(e) {
			ran = []
			const pageErrors = errors(page)
			for (const a of apps) seen[a] = X[a] ? errors(X[a]) : 0
			const x = X[e.a]
			let r = 'none'
			switch (e.op) {
				case 'up':
					kinds[e.a] = e.k
					X[e.a] = await makeApp(m, { name: conc.names[apps.indexOf(e.a)], gizmos: gizmos(m, conc, e.k, c => runs(e.a, c, 'user')) })
					break
				case 'palette':
					FN.show.connect(x, runs(e.a, 'show', 'own'))
					break
				case 'replace':
					x.commands.handlers.register(IDS[e.c], runs(e.a, e.c, 'user'))
					break
				case 'call': {
					const f = flip++ % 2 ? own(x, e.c) : undefined
					r = res(e.c, f ? f(...given(e.c, e.v)) : x.commands.handlers.invoke(IDS[e.c], ...given(e.c, e.v)))
					break
				}
				case 'pkg':
					r = res(e.c, FN[e.c](...given(e.c, e.v)))
					break
				case 'press':
					stroke(dom.window, dom.window.document.body, KEYS[conc.os][e.k])
					break
				case 'setLanguage':
					x.i18n.setLanguage(L[e.v])
					break
			}
			return { ran, res: r, err: apps.reduce((n, a) => n + (X[a] ? errors(X[a]) : 0) - seen[a], 0), page: errors(page) - pageErrors }
		},
		obs() {
			// looking may run handlers
			ran = []
			return Object.fromEntries(
				apps.map(a => {
					const x = X[a]
					const each = f => Object.fromEntries(Object.entries(IDS).map(([c, id]) => [c, f(c, id)]))
					if (!x) return [a, { kind: 'none', h: each(() => false), c: each(() => 'no'), kb: 'no', pref: 'none', lang: 'init' }]
					const { handlers, contributions } = x.commands
					const was = kinds[a]
					const ids = Object.values(IDS)
					const other = [...handlers.keys(), ...contributions.keys(), ...(x.keyboard?.keyBindingContributions.keys() ?? [])].filter(id => !ids.includes(id))
					return [
						a,
						{
							kind: other.length ? `?${other}` : was,
							// which one it is shows when it is called
							h: each((_, id) => handlers.has(id)),
							c: each((c, id) => {
								const info = contributions.get()[id]
								if (contributions.has(id) !== !!info) return '?'
								if (!info) return 'no'
								const { title } = m.commands.formatCommand(info)
								if (JSON.stringify(info) === JSON.stringify({ id, title: `Mine ${c}` })) return 'mine'
								if (info.id !== id || title !== TITLES[c] || (info.commandPalette === false) !== (c === 'show')) return `?${JSON.stringify(info)}`
								return 'std'
							}),
							kb: (() => {
								const b = x.keyboard?.keyBindingContributions.get()[IDS.show]
								if (!b) return 'no'
								return b.key === 'ctrl+k' && b.mac === 'cmd+k' ? 'std' : b.key === 'x' && b.mac === 'x' ? 'mine' : `?${JSON.stringify(b)}`
							})(),
							pref: handlers.has(IDS.get) ? res('get', handlers.invoke(IDS.get, 'theme')) : 'none',
							lang: !x.i18n || x.i18n.getLanguage() === 'en-US' ? 'init' : abs(L, x.i18n.getLanguage())
						}
					]
				})
			)
		},
		kindOf: a => kinds[a],
		close() {
			// the keys are those of the page
			for (const a of apps) X[a]?.keyboard?.keyBindingContributions.set(Object.create(null))
		}
	}
}
export const builtinDriverOf = apps => (world, conc) => builtinDriver(world, conc, apps)
