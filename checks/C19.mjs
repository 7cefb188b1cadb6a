import { i18nConcs, i18nDriverOf } from '../drivers/i18n.mjs'
import { i18nGen, i18nWide } from './i18n_common.mjs'

const kind = 'browser'
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 300, len: 200 } : { n: 20, len: 60 }
		return [
			...(deep
				? [{ spec: 'JustI18n', cfg: 'JustI18n_C19_deepA', driver: i18nDriverOf(['A'], true), concs: i18nConcs, tourLen: 200, walks }]
				: []),
			{
				spec: 'JustI18n',
				cfg: deep ? 'JustI18n_C19_deep' : 'JustI18n_C19',
				driver: i18nDriverOf(['A', 'B'], deep),
				concs: i18nConcs.map(c => ({ ...c, tourEvery: 3 })),
				tourLen: 200,
				walks
			},
			{
				spec: 'JustI18n',
				cfg: 'JustI18n_C19',
				noExplore: true,
				traceConstants: { Foreign: '{"f1"}', Behs: '{"plain", "fr2zh", "zh2en"}', H: '{"h1", "h2"}' },
				driver: i18nDriverOf(['A', 'B'], true),
				concs: i18nConcs,
				trace: { n: deep ? 60 : 8, len: 100, cfgs: [true, false].map(cmds => ({ kind, cmds })), gen: i18nGen }
			},
			i18nWide(i18nConcs, 'JustI18n_C19', kind, deep)
		]
	}
}
