import { registryConcs, registryDriverOf, registryWide } from '../drivers/registry.mjs'
import { pick } from '../lib/graph.mjs'
import { setOf } from '../lib/wide.mjs'

export const registryGen = ({ ops, keys, vals, batches }) => r => {
	const op = pick(r, ops)
	if (op === 'reset') return { op }
	if (op === 'add') return { op, how: pick(r, ['first', 'last']), es: batches(r) }
	const k = pick(r, keys)
	return op === 'del' ? { op, k } : { op, k, v: op === 'put' || op === 'merge' ? pick(r, vals) : 'v1' }
}

export const registryWideConstants = () => {
	const { keys } = registryWide()
	return { Strs: setOf(keys.filter(k => k[0] !== 's')), Syms: setOf(keys.filter(k => k[0] === 's')) }
}

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const keys = deep ? ['k1', 'k2', 'k3', 's1', 's2'] : ['k1', 'k2', 's1', 's2']
		return [
			{
				spec: 'JustRegistry',
				cfg: deep ? 'JustRegistry_C06_deep' : 'JustRegistry_C06',
				driver: registryDriverOf(keys),
				concs: registryConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 })),
				walks: deep ? { n: 300, len: 200 } : { n: 30, len: 80 },
				trace: {
					n: deep ? 20 : 4,
					len: 120,
					cfgs: [{ init: 'empty' }, { init: 'one' }],
					gen: registryGen({ ops: ['put', 'put', 'put', 'del', 'del', 'swap', 'merge', 'only', 'reset'], keys, vals: ['v1', 'v2', 'F', 'U'] })
				}
			},
			{
				spec: 'JustRegistry',
				cfg: 'JustRegistry_C06',
				noExplore: true,
				traceConstants: registryWideConstants(),
				driver: registryDriverOf(registryWide().keys),
				concs: registryWide().concs,
				trace: {
					n: deep ? 10 : 2,
					len: 150,
					cfgs: [{ init: 'empty' }, { init: 'one' }],
					gen: (r, i, ...rest) => registryGen({ ops: [...Array(14).fill('put'), 'del', 'del', 'swap', 'merge', i % 50 ? 'put' : 'only', i % 50 ? 'del' : 'reset'], keys: registryWide().keys, vals: ['v1', 'v2', 'F', 'U'] })(r, i, ...rest)
				}
			}
		]
	}
}
