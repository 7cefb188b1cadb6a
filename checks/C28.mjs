import { intlConcs, intlDriverOf } from '../drivers/intl.mjs'
import { pick } from '../lib/graph.mjs'

const apps = ['A', 'B', 'C']
const locales = ['en', 'de', 'fr']
function gen(r, _i, d) {
	for (;;) {
		const a = pick(r, apps)
		if (!d.up(a)) {
			if (r() < 0.6) continue
			return { op: 'create', a, l: pick(r, locales), d: pick(r, [...locales, 'unset']), cat: pick(r, ['none', 'some', 'all']), cache: pick(r, ['none', 'own', 'shared']) }
		}
		return r() < 0.3 ? { op: 'num', a } : { op: 'msg', a, id: pick(r, ['m1', 'm2', 'm3']), dflt: r() < 0.5 }
	}
}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustIntl',
				cfg: 'JustIntl_C28',
				driver: intlDriverOf(['A', 'B']),
				concs: intlConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 4 })),
				tourLen: 60,
				walks: { n: deep ? 300 : 20, len: 30 }
			},
			{
				spec: 'JustIntl',
				cfg: 'JustIntl_C28',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B", "C"}' },
				driver: intlDriverOf(apps),
				concs: intlConcs,
				trace: { n: deep ? 100 : 15, len: 40, cfgs: [{ n: 0 }], gen }
			}
		]
	}
}
