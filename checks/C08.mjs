import { handlersConcs, handlersDriver } from '../drivers/commands.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const ids = ['i1', 'i2', 'i3']
const many = range('i', 14)
const genOf = (names, max) => r =>
	r() < 0.4
		? { op: 'register', i: pick(r, names), f: pick(r, ['f1', 'f2', 'fT', 'fI', 'fR', 'fC']) }
		: { op: 'invoke', i: pick(r, names), args: Array.from({ length: Math.floor(r() * (max + 1)) }, () => pick(r, ['a', 'b', 'U'])) }
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustHandlers',
				cfg: 'JustHandlers_C08',
				driver: handlersDriver,
				concs: handlersConcs,
				walks: deep ? { n: 500, len: 300 } : { n: 30, len: 100 },
				trace: {
					n: deep ? 30 : 4,
					len: 120,
					cfgs: [{ given: [] }, { given: ['i1'] }, { given: ['i2', 'i1'] }, { given: ['i3', 'i2', 'i1'] }],
					gen: genOf(ids, 4)
				}
			},
			{
				spec: 'JustHandlers',
				cfg: 'JustHandlers_C08',
				noExplore: true,
				traceConstants: { Ids: setOf(many) },
				driver: handlersDriver,
				concs: handlersConcs.map(c => ({ ...c, ids: more(c.ids, 'i', many.length) })),
				trace: { n: deep ? 10 : 1, len: 300, cfgs: [{ given: [] }, { given: ['i9', 'i1', 'i12', 'i5', 'i4'] }], gen: genOf(many, 12) }
			}
		]
	}
}
