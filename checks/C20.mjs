import { eventsConcs, eventsDriverOf } from '../drivers/events.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const L = ['l1', 'l2', 'l3']
const genOf = (apps, evs, L, often) => function gen(r, _i, d) {
	for (;;) {
		const op = pick(r, ['on', 'on', 'on', 'once', 'once', 'off', 'clear', 'emit', 'emit', 'emit'])
		const a = pick(r, apps)
		const e = pick(r, evs)
		const l = pick(r, L)
		if (op === 'emit') return { op, a, e, arg: pick(r, ['none', 'one', 'many']) }
		if (op === 'clear') {
			if (r() < (often ? 0.05 : 0.3)) return { op, a, e }
			continue
		}
		if (op === 'off') {
			if (d.listens(a, e, l)) return { op, a, e, l }
			continue
		}
		if (d.listens(a, e, l)) continue
		const b = often && r() < 0.7 ? 'plain' : pick(r, ['plain', 'plain', 'throw', 'off', 'drop', 'add', 'emit'])
		if (b !== 'emit' || e === 'e1') return { op, a, e, l, b }
	}
}
const gen = genOf(['A', 'B'], ['e1', 'e2'], L)
const many = { apps: ['A', 'B', 'C'], evs: range('e', 8), L: range('l', 20) }
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 300, len: 200 } : { n: 30, len: 60 }
		const concs = eventsConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 }))
		return [
			{ spec: 'JustEvents', cfg: 'JustEvents_C20', driver: eventsDriverOf(['A'], ['e1'], L), concs, walks },
			{
				spec: 'JustEvents',
				cfg: deep ? 'JustEvents_C20_deep' : 'JustEvents_C20b',
				driver: eventsDriverOf(['A'], ['e1', 'e2'], ['l1', 'l2']),
				concs,
				walks
			},
			{
				spec: 'JustEvents',
				cfg: 'JustEvents_C20',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B"}', Evs: '{"e1", "e2"}' },
				driver: eventsDriverOf(['A', 'B'], ['e1', 'e2'], L),
				concs: eventsConcs,
				trace: { n: deep ? 40 : 6, len: 120, cfgs: [{ emitter: 'default' }, { emitter: 'custom' }], gen }
			},
			// many events, many listeners
			{
				spec: 'JustEvents',
				cfg: 'JustEvents_C20',
				noExplore: true,
				traceConstants: { Apps: setOf(many.apps), Evs: setOf(many.evs), Lists: setOf(many.L) },
				driver: eventsDriverOf(many.apps, many.evs, many.L),
				concs: eventsConcs.map(c => ({ ...c, evs: typeof c.evs.e1 === 'symbol' ? { ...more({ e1: 's' }, 'e', 8), ...c.evs } : more(c.evs, 'e', 8) })),
				trace: { n: deep ? 10 : 1, len: deep ? 800 : 400, cfgs: [{ emitter: 'default' }, { emitter: 'custom' }], gen: genOf(many.apps, many.evs, many.L, true) }
			}
		]
	}
}
