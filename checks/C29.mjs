import { trackingConcs, trackingDriverOf } from '../drivers/tracking.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const genOf = (apps, ids) => function gen(r) {
	const op = pick(r, ['register', 'register', 'connect', 'invoke', 'invoke', 'call', 'call', 'press', 'press'])
	const i = pick(r, ids)
	if (op === 'call' || op === 'press') return { op, i }
	const a = pick(r, apps)
	if (op === 'invoke') return { op, a, i }
	return { op, a, i, f: pick(r, i === 'i1' ? ['plain', 'throw', 'nest', 'nest'] : ['plain', 'throw']) }
}
const levels = ['error', 'notice', 'info', 'trace', 'trace']
const cfgs = levels.flatMap(A => levels.map(B => ({ A, B })))
const gen = genOf(['A', 'B'], ['i1', 'i2'])
const many = { apps: ['A', 'B', 'C', 'D', 'E', 'F'], ids: range('i', 10) }
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustTracking',
				cfg: 'JustTracking_C29',
				driver: trackingDriverOf(['A', 'B']),
				concs: trackingConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 3 })),
				tourLen: 200,
				walks: { n: deep ? 300 : 20, len: 60 }
			},
			{
				spec: 'JustTracking',
				cfg: 'JustTracking_C29',
				noExplore: true,
				driver: trackingDriverOf(['A', 'B']),
				concs: trackingConcs,
				trace: { n: deep ? 60 : 12, len: deep ? 200 : 60, cfgs, gen }
			},
			// many commands of many apps
			{
				spec: 'JustTracking',
				cfg: 'JustTracking_C29',
				noExplore: true,
				traceConstants: { Apps: setOf(many.apps), Ids: setOf(many.ids) },
				driver: trackingDriverOf(many.apps),
				concs: trackingConcs.map(c => ({ ...c, ids: more(c.ids, 'i', 10), names: { ...c.names, C: 'C', D: 'dd', E: 'long'.repeat(50), F: 'f' } })),
				trace: {
					n: deep ? 12 : 2,
					len: deep ? 600 : 300,
					cfgs: ['trace', 'info'].map(l => Object.fromEntries(many.apps.map((a, k) => [a, k % 3 === 2 ? 'notice' : k % 2 ? l : 'trace']))),
					gen: genOf(many.apps, many.ids)
				}
			}
		]
	}
}
