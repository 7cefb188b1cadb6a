import { contribConcs, contribDriver } from '../drivers/commands.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const ids = ['i1', 'i2', 'i3']
const many = range('i', 32)
const some = (r, max, ids) => Array.from({ length: Math.floor(r() * (max + 1)) }, () => ({ i: pick(r, ids), c: pick(r, ['c1', 'c2']) }))
const genOf = (names, max) => r => {
	const reg = pick(r, ['cmd', 'key'])
	const x = r()
	if (x < 0.55) return { op: 'add', reg, es: some(r, max, names) }
	if (x < (max > 4 ? 0.985 : 0.933)) return { op: 'remove', reg, i: pick(r, names) }
	return { op: 'reset', reg }
}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustContrib',
				cfg: deep ? 'JustContrib_C09_deep' : 'JustContrib_C09',
				driver: contribDriver,
				concs: contribConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 })),
				walks: deep ? { n: 300, len: 200 } : { n: 30, len: 80 },
				trace: {
					n: deep ? 20 : 4,
					len: 120,
					cfgs: [
						{ cmd: [], key: [], fol: 'other' },
						{ cmd: [{ i: 'i1', c: 'c1' }], key: [{ i: 'i2', c: 'c2' }], fol: 'off' },
						{ cmd: [{ i: 'i3', c: 'c2' }, { i: 'i1', c: 'c2' }], key: [], fol: 'same' }
					],
					gen: genOf(ids, 4)
				}
			},
			{
				spec: 'JustContrib',
				cfg: 'JustContrib_C09',
				noExplore: true,
				traceConstants: { Ids: setOf(many) },
				driver: contribDriver,
				concs: contribConcs.map(c => ({ ...c, ids: more(c.ids, 'i', many.length) })),
				trace: { n: deep ? 10 : 1, len: 200, cfgs: [{ cmd: [], key: range('i', 12, 5).map(i => ({ i, c: 'c1' })), fol: 'same' }], gen: genOf(many, 15) }
			}
		]
	}
}
