import { prefsConcs, prefsDriverOf, prefsGen, prefsWidePart } from './prefs_common.mjs'

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustPrefs',
				cfg: deep ? 'JustPrefs_C13_deep' : 'JustPrefs_C13',
				driver: prefsDriverOf(deep ? ['A', 'B'] : ['A'], false),
				concs: prefsConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 4 })),
				walks: deep ? { n: 300, len: 200 } : { n: 30, len: 60 }
			},
			{
				spec: 'JustPrefs',
				cfg: 'JustPrefs_C13',
				noExplore: true,
				traceConstants: { Insts: '{"A", "B"}', P: '{"p1", "p2", "p3"}' },
				driver: prefsDriverOf(['A', 'B'], false),
				concs: prefsConcs,
				trace: {
					n: deep ? 30 : 5,
					len: 120,
					cfgs: [{ backend: 'mem' }, { backend: 'page' }, { backend: 'stub' }],
					gen: prefsGen(['A', 'B'], ['p1', 'p2', 'p3'], ['v1', 'E'], false)
				}
			},
			prefsWidePart('JustPrefs_C13', deep, ['stub', 'mem', 'page'], ['A', 'B'], false)
		]
	}
}
