import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'
import { i18nDriverOf } from '../drivers/i18n.mjs'

const L = ['en', 'fr', 'zh']
const zero = names => Object.fromEntries(names.map(a => [a, 0]))
const genOf = (names, L, H, max, plain) => function i18nGen(r, i, _d, cfg, memo) {
	if (i === 0) Object.assign(memo, { n: zero(names), odd: {}, nav: 'en' })
	const browser = cfg.kind === 'browser'
	for (;;) {
		const op = pick(r, ['set', 'set', 'cmd', 'clear', 'listen', 'nav', 'other', 'reload'])
		const a = pick(r, names)
		if (op === 'set' || (op === 'cmd' && cfg.cmds)) return { op, a, l: pick(r, L) }
		if (op === 'listen' && memo.n[a] < max && r() < 0.5) {
			memo.n[a]++
			let b = pick(r, ['plain', 'plain', 'fr2zh', 'zh2en'])
			// each of these tells all of them again
			if (plain && b !== 'plain' && memo.odd[a + b]) b = 'plain'
			memo.odd[a + b] = true
			return { op, a, h: pick(r, H), b }
		}
		if (!browser) continue
		if (op === 'clear') return { op, a }
		if (op === 'nav') {
			const l = pick(r, L)
			if (l === memo.nav) continue
			memo.nav = l
			return { op, l }
		}
		if (op === 'other') return { op, f: 'f1' }
		if (op === 'reload' && r() < (plain ? 0.1 : 0.5)) {
			memo.n = zero(names)
			memo.odd = {}
			return { op }
		}
	}
}
export const i18nGen = genOf(['A', 'B'], L, ['h1', 'h2'], 5)

/** many languages, many apps and many listeners over a long history */
export const i18nWide = (concs, cfg, kind, deep) => {
	const names = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'K']
	const H = range('h', 10)
	return {
		spec: 'JustI18n',
		cfg,
		noExplore: true,
		traceConstants: { Apps: setOf(names), H: setOf(H), Foreign: kind === 'browser' ? '{"f1"}' : '{}', Behs: '{"plain", "fr2zh", "zh2en"}' },
		driver: i18nDriverOf(names, kind === 'browser'),
		concs: concs.map(c => ({
			...c,
			langs: more(c.langs, 'l', 14),
			names: { ...c.names, C: 'C d', D: '__proto__/x', E: 'ключ', F: `${'long'.repeat(60)}1`, G: `${'long'.repeat(60)}2`, K: 'C_d' }
		})),
		trace: { n: deep ? 12 : 1, len: deep ? 600 : 250, cfgs: [{ kind, cmds: true }], gen: genOf(names, [...L, ...range('l', 14)], H, 30, true) }
	}
}
