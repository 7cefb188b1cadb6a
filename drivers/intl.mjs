// Binds JustIntl.tla to app.formatjs.
import { amid } from './apps.mjs'
export const intlConcs = [
	{ name: 'plain', ids: { m1: 'm1', m2: 'm2', m3: 'm3' }, names: { A: 'app', B: 'app2', C: 'app3' }, fresh: true },
	{ name: 'test', test: true, ids: { m1: 'a.b', m2: 'toString', m3: 'valueOf' }, names: { A: 'x', B: 'x', C: 'x' } },
	{ name: 'formats', formats: true, ids: { m1: 'm1', m2: 'M1', m3: 'm3' }, names: { A: 'app', B: 'app2', C: 'app3' }, fresh: true },
	{ name: 'descriptor', ids: { m1: 'ü', m2: '0', m3: ' ' }, names: { A: 'x', B: 'y', C: 'z' }, fresh: true }
]
const N = 1234.5
// what a number looks like says which locale it was formatted for
const shown = { en: '1,234.5', de: '1.234,5', fr: new Intl.NumberFormat('fr').format(N) }
const precise = { number: { precise: { minimumFractionDigits: 3 } } }
const shownPrecise = { en: '1,234.500', de: '1.234,500', fr: new Intl.NumberFormat('fr', precise.number.precise).format(N) }

export async function intlDriver(world, conc, _cfg, apps) {
	const m = world.shared()
	const A = {}
	const sharedCache = m.formatjs.createIntlCache()
	let on = {}
	const arg = conc.formats ? '{n, number, precise}' : '{n, number}'
	const textOf = (l, id) => `text ${l} ${id} ${arg}`
	const catalog = (l, cat) => {
		const msgs = Object.create(null)
		if (cat !== 'none') msgs[conc.ids.m1] = textOf(l, conc.ids.m1)
		if (cat === 'all') msgs[conc.ids.m2] = textOf(l, conc.ids.m2)
		return msgs
	}
	const errors = () => Object.fromEntries(apps.map(a => [a, on[a] ?? 0]))
	const localeOf = (s, by = shown) => Object.keys(shown).find(l => by[l] === s) ?? `?${s}`
	const inText = conc.formats ? shownPrecise : shown
	return {
		async step(e) {
			on = {}
			if (e.op === 'create') {
				const config = { locale: e.l, onError: () => void (on[e.a] = (on[e.a] ?? 0) + 1) }
				if (e.d !== 'unset') config.defaultLocale = e.d
				if (conc.formats) config.formats = config.defaultFormats = precise
				if (e.cat !== 'none' || conc.fresh) config.messages = catalog(e.l, e.cat)
				const own = m.formatjs.createIntlCache()
				const options = { config }
				if (e.cache === 'own') options.cache = own
				if (e.cache === 'shared') options.cache = sharedCache
				const make = conc.test ? m.appTesting.justTestApp : m.app.justApp
				const other = { locale: 'ja', defaultLocale: 'ja', messages: catalog('ja', 'all'), onError: () => void (on[e.a] = 100) }
				const app = await amid(
					make({ name: conc.names[e.a], log: { logLevel: 0 } }).with(m.formatjs.formatJSGizmoFn(options)),
					make({ name: 'other', log: { logLevel: 0 } }).with(m.formatjs.formatJSGizmoFn({ config: other, cache: m.formatjs.createIntlCache() }))
				)
				A[e.a] = { app, cache: options.cache }
				return { text: '-', l: app.formatjs.intl.locale, errors: errors() }
			}
			const { intl } = A[e.a].app.formatjs
			if (e.op === 'num') {
				const l = localeOf(intl.formatNumber(N))
				return { text: 'number', l, errors: errors() }
			}
			const id = conc.ids[e.id]
			const d = { id }
			if (e.dflt) d.defaultMessage = `default ${id} ${arg}`
			const s = (conc.test ? intl.$t : intl.formatMessage)(d, { n: N })
			if (s === id) return { text: 'id', l: '-', errors: errors() }
			const n = s.split(' ').at(-1)
			for (const l of Object.keys(shown)) if (s === textOf(l, id).replace(arg, n)) return { text: 'text', l: localeOf(n, inText) === l ? l : `?${s}`, errors: errors() }
			if (s === `default ${id} ${n}`) return { text: 'default', l: localeOf(n, inText), errors: errors() }
			return { text: `?${s}`, l: localeOf(n, inText), errors: errors() }
		},
		obs() {
			const used = c => (!c ? 'none' : Object.values(c).some(x => Object.keys(x).length) ? 'used' : 'empty')
			return Object.fromEntries(apps.map(a => [a, A[a] ? used(A[a].cache) : 'no']))
		},
		up: a => !!A[a]
	}
}
export const intlDriverOf = apps => (world, conc, cfg) => intlDriver(world, conc, cfg, apps)
