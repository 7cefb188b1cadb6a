import { prefsConcs, prefsDriverOf, prefsGen, prefsWidePart } from './prefs_common.mjs'

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			...(deep ? ['JustPrefs_C15_deep'] : ['JustPrefs_C15', 'JustPrefs_C15b']).map(cfg => ({
				spec: 'JustPrefs',
				cfg,
				driver: prefsDriverOf(cfg === 'JustPrefs_C15' ? ['A', 'B'] : ['A', 'B', 'C'], cfg !== 'JustPrefs_C15', cfg === 'JustPrefs_C15b' ? 1 : 2),
				concs: prefsConcs.map(c => ({ ...c, tourEvery: 4 })),
				tourLen: 150,
				walks: deep ? { n: 300, len: 200 } : { n: 30, len: 60 }
			})),
			{
				spec: 'JustPrefs',
				cfg: 'JustPrefs_C15',
				noExplore: true,
				traceConstants: { Foreign: '{"f1"}', Insts: '{"A", "B", "C"}', Vals: '{"v1", "E"}', P: '{"p1", "p2"}' },
				driver: prefsDriverOf(['A', 'B', 'C'], true),
				concs: prefsConcs,
				trace: {
					n: deep ? 30 : 5,
					len: 120,
					cfgs: [{ backend: 'page' }, { backend: 'stub' }],
					gen: prefsGen(['A', 'B', 'C'], ['p1', 'p2'], ['v1', 'E'], true)
				}
			},
			prefsWidePart('JustPrefs_C15', deep, ['page', 'stub'], ['A', 'B', 'C', 'D', 'F', 'G', 'H', 'I', 'J', 'K'], true)
		]
	},
	known: [
		{
			what: "an app named 'a' clears and shares the preferences of an app named 'a:b' (a name that continues another name with ':')",
			async run(world) {
				const names = ['a', 'a:b']
				const d = await prefsDriverOf(['A', 'B'], false)(world, { ...prefsConcs[0], names }, { backend: 'stub' })
				d.step({ op: 'set', i: 'B', k: 'k1', v: 'v1' })
				d.step({ op: 'clear', i: 'A' })
				const { get } = d.obs()
				d.close()
				return get.B.k1.bare === '-'
			}
		}
	]
}
