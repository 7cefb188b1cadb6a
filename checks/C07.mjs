import { listConcs, listDriver } from '../drivers/list.mjs'
import { registryConcs, registryDriverOf, registryWide } from '../drivers/registry.mjs'
import { pick } from '../lib/graph.mjs'
import { registryGen, registryWideConstants } from './C06.mjs'

const keys = ['k1', 'k2', 'k3', 's1']
const some = (r, xs, max) => Array.from({ length: Math.floor(r() * (max + 1)) }, () => pick(r, xs))
const batches = r => some(r, [...keys, ...keys], 4).map(k => ({ k, v: pick(r, ['v1', 'v2', 'v1', 'v2', 'F', 'F', 'T']) }))

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const wide = registryWide()
		return [
			{
				spec: 'JustRegistry',
				cfg: 'JustRegistry_C07',
				driver: registryDriverOf(keys),
				concs: registryConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 })),
				walks: deep ? { n: 300, len: 200 } : { n: 20, len: 80 },
				trace: {
					n: deep ? 20 : 3,
					len: 120,
					cfgs: [{ init: 'empty' }, { init: 'one' }],
					gen: registryGen({ ops: ['put', 'del', 'add', 'add', 'add', 'reset'], keys, vals: ['v1', 'v2', 'F', 'U'], batches })
				}
			},
			{
				spec: 'JustRegistry',
				cfg: 'JustRegistry_C07',
				noExplore: true,
				traceConstants: registryWideConstants(),
				driver: registryDriverOf(wide.keys),
				concs: wide.concs,
				trace: {
					n: deep ? 10 : 2,
					len: 80,
					cfgs: [{ init: 'empty' }, { init: 'one' }],
					gen: (r, i, ...rest) =>
						registryGen({
							ops: ['put', 'del', 'del', 'del', 'add', 'add', 'add', i % 20 ? 'add' : 'reset'],
							keys: wide.keys,
							vals: ['v1', 'v2', 'F', 'U'],
							batches: x => some(x, wide.keys, 30).map(k => ({ k, v: x() < 0.01 ? 'T' : pick(x, ['v1', 'v2', 'F']) }))
						})(r, i, ...rest)
				}
			},
			{
				spec: 'JustList',
				cfg: deep ? 'JustList_C07_deep' : 'JustList_C07',
				traceConstants: { MaxLen: '40' },
				driver: listDriver,
				concs: listConcs,
				walks: deep ? { n: 300, len: 200 } : { n: 20, len: 80 },
				trace: {
					n: deep ? 20 : 3,
					len: 80,
					cfgs: [{ init: 'empty', fol: true }, { init: 'one', fol: false }],
					gen: (r, _i, d) => {
						const op = d.length() > 20 ? 'clear' : pick(r, ['add', 'add', 'add', 'add', 'set', 'clear', 'reset'])
						if (op === 'add') return { op, how: pick(r, ['push', 'unshift', 'once']), es: some(r, ['x', 'y', 'z', 'x', 'y', 'z', 'T'], 4) }
						if (op === 'set') return { op, es: some(r, ['x', 'y', 'z'], 3) }
						return { op }
					}
				}
			},
			{
				spec: 'JustList',
				cfg: 'JustList_C07',
				noExplore: true,
				traceConstants: { MaxLen: '400' },
				driver: listDriver,
				concs: listConcs,
				trace: {
					n: deep ? 10 : 1,
					len: 40,
					cfgs: [{ init: 'empty', fol: true }],
					gen: (r, _i, d) => {
						const op = d.length() > 150 ? pick(r, ['clear', 'set', 'reset']) : pick(r, ['add', 'add', 'add', 'add', 'add', 'add', 'add', 'set'])
						if (op === 'add') return { op, how: pick(r, ['push', 'push', 'unshift', 'unshift', 'once']), es: some(r, r() < 0.1 ? ['x', 'y', 'T'] : ['x', 'y', 'z'], 40) }
						if (op === 'set') return { op, es: some(r, ['x', 'y', 'z'], 20) }
						return { op }
					}
				}
			}
		]
	}
}
