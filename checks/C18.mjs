import { i18nConcs, i18nDriverOf } from '../drivers/i18n.mjs'
import { i18nGen, i18nWide } from './i18n_common.mjs'

const kind = 'plain'
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 300, len: 200 } : { n: 30, len: 60 }
		return [
			{ spec: 'JustI18n', cfg: deep ? 'JustI18n_C18_deep' : 'JustI18n_C18', driver: i18nDriverOf(['A', 'B']), concs: i18nConcs, walks },
			{ spec: 'JustI18n', cfg: 'JustI18n_C18b', driver: i18nDriverOf(['A']), concs: i18nConcs, walks },
			{
				spec: 'JustI18n',
				cfg: 'JustI18n_C18',
				noExplore: true,
				traceConstants: { Behs: '{"plain", "fr2zh", "zh2en"}' },
				driver: i18nDriverOf(['A', 'B']),
				concs: i18nConcs,
				trace: { n: deep ? 60 : 12, len: 60, cfgs: [true, false].map(cmds => ({ kind, cmds })), gen: i18nGen }
			},
			i18nWide(i18nConcs, 'JustI18n_C18', kind, deep)
		]
	}
}
