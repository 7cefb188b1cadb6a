// Binds JustI18n.tla to i18nGizmoFn and browserI18nGizmo.
import { createAll } from './apps.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'

export const i18nConcs = [
	{ name: 'plain', langs: { en: 'en', fr: 'fr', zh: 'zh-TW' }, names: { A: 'app', B: 'app2' }, together: true, via: 'stub', foreign: ['@just-web/browser-i18n/app', 'fr'] },
	{ name: 'page', langs: { en: 'en-US', fr: 'en', zh: 'en-GB' }, names: { A: 'a/language', B: 'a' }, via: 'page', foreign: ['language', ''] },
	{ name: 'odd', langs: { en: '', fr: 'constructor', zh: ' ' }, names: { A: 'constructor', B: '__proto__' }, via: 'stub', foreign: ['a:language', 'é'] },
	{ name: 'case', langs: { en: 'EN', fr: 'en', zh: 'en-us' }, names: { A: 'My.App', B: 'my.app' }, together: true, via: 'page', foreign: ['My.App', 'en'] },
	{ name: 'alike', langs: { en: 'x', fr: 'x ', zh: 'X' }, names: { A: 'a-b', B: 'a b' }, via: 'stub', foreign: ['en', ''] }
]
const COMMAND = '@just-web/i18n/set-language'
let page
export async function i18nDriver(world, conc, cfg, names, foreignToo) {
	const browser = cfg.kind === 'browser'
	let nav = 'en'
	let storage
	let m
	let w
	const env = () => domEnv(page.dom, { addEventListener() {}, removeEventListener() {} })
	if (browser) {
		if (!page || page.uses > 60) {
			page?.dom.window.close()
			page = { dom: newDom(), uses: 0 }
		}
		page.uses++
		w = page.dom.window
		m = world.freshBrowser(env())
		if (conc.via === 'page') {
			storage = w.localStorage
			storage.clear()
			Object.defineProperty(w.navigator, 'language', { configurable: true, get: () => conc.langs[nav] })
		} else storage = m.browserTesting.stubStorage()
	} else m = world.shared()
	const abs = v => Object.keys(conc.langs).find(k => conc.langs[k] === v) ?? `?${String(v)}`
	let apps
	let ev = []
	const load = async () => {
		const builders = {}
		for (const a of names) {
			let b = m.appTesting.justTestApp({ name: conc.names[a] })
			if (cfg.cmds) b = b.with(m.commands.commandsGizmoFn())
			if (browser) {
				const options = conc.via === 'page' ? undefined : { localStorage: storage, navigator: { get language() { return conc.langs[nav] } } }
				b = b.with(m.browserTesting.browserTestGizmoFn(options)).with(m.browserI18n.browserI18nGizmo)
			} else b = b.with(m.i18n.i18nGizmoFn({ language: conc.langs.en }))
			builders[a] = b
		}
		apps = await createAll(builders, conc.together)
	}
	await load()
	const wants = { fr2zh: { fr: 'zh' }, zh2en: { zh: 'en' } }
	return {
		step(e) {
			ev = []
			const app = apps[e.a]
			switch (e.op) {
				case 'set':
					app.i18n.setLanguage(conc.langs[e.l])
					return ev
				case 'cmd':
					app.commands.handlers.invoke(COMMAND, conc.langs[e.l])
					return ev
				case 'clear':
					app.i18n.clearLanguage()
					return ev
				case 'listen': {
					const { h, b } = e
					app.i18n.languageChanged((...args) => {
						const [n, o] = args
						ev.push({ h: args.length === 2 ? h : `${h}(${args.length})`, n: abs(n), o: abs(o), now: abs(app.i18n.getLanguage()) })
						const want = wants[b]?.[abs(n)]
						if (want) app.i18n.setLanguage(conc.langs[want])
					})
					return ev
				}
				case 'nav':
					nav = e.l
					return ev
				case 'other': {
					const [k, v] = conc.foreign
					if (storage.getItem(k) === null) storage.setItem(k, v)
					else storage.removeItem(k)
					return ev
				}
				case 'reload':
					page.uses++
					m = world.freshBrowser(env())
					return load().then(() => ev)
			}
		},
		obs() {
			let entries = 0
			const foreign = {}
			if (browser) {
				const [f, v] = conc.foreign
				for (let i = 0; i < storage.length; i++) if (storage.key(i) !== f) entries++
				entries += w.sessionStorage.length
				if (foreignToo) foreign.f1 = storage.getItem(f) === null ? false : storage.getItem(f) === v || 'changed'
			}
			return {
				lang: Object.fromEntries(names.map(a => [a, abs(apps[a].i18n.getLanguage())])),
				contributed: Object.fromEntries(
					names.map(a => {
						const c = apps[a].commands?.contributions
						if (!c) return [a, false]
						const x = c.has(COMMAND) && c.get()[COMMAND]
						return [a, !!x && typeof x.title === 'string' && x.title !== '']
					})
				),
				entries,
				foreign
			}
		}
	}
}
export const i18nDriverOf = (names, foreign) => (world, conc, cfg) => i18nDriver(world, conc, cfg, names, foreign)
