import { routesConcs, routesDriverOf } from '../drivers/routes.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const R = ['root', 'r1', 'r2']
const T = ['t1', 't2', 't3']
const A = ['A', 'B']
const manyR = ['root', ...range('r', 23)]
const manyT = range('t', 48)
const genOf = (R, T, clears = 0.4) => (r, _i, d) => {
	for (;;) {
		const op = pick(r, [...(R.length > 9 ? Array(7).fill('register') : []), 'register', 'register', 'register', 'unregister', 'stale', 'clear', 'config', 'config0', 'go', 'go', 'stray', 'home'])
		const a = pick(r, A)
		if (op === 'clear' && r() > clears) continue
		if (op === 'clear' || op === 'home' || op === 'config0') return { op, a }
		if (op === 'go' || op === 'stray' || op === 'config') return { op, a, r: pick(r, R) }
		const t = pick(r, T)
		if (op === 'register') {
			if (d.isLive('A', t) || d.isLive('B', t)) continue
			return { op, a, r: pick(r, R), t, b: pick(r, ['plain', 'throw', 'off', 'go', 'renew']) }
		}
		if (op === 'unregister' ? d.isLive(a, t) : d.hasOld(a, t)) return { op, a, t }
	}
}

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 400, len: 200 } : { n: 30, len: 80 }
		return [
			{ spec: 'JustRoutes', cfg: deep ? 'JustRoutes_C12_deep' : 'JustRoutes_C12', driver: routesDriverOf(['A'], R), concs: routesConcs, walks },
			{ spec: 'JustRoutes', cfg: 'JustRoutes_C12b', driver: routesDriverOf(A, ['root', 'r1']), concs: routesConcs.slice(0, 2), walks },
			{
				spec: 'JustRoutes',
				cfg: 'JustRoutes_C12',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B"}', Slots: '{"t1", "t2", "t3"}' },
				driver: routesDriverOf(A, R),
				concs: routesConcs,
				trace: {
					n: deep ? 40 : 5,
					len: 120,
					cfgs: [{ n: 0 }],
					gen: genOf(R, T)
				}
			},
			{
				spec: 'JustRoutes',
				cfg: 'JustRoutes_C12',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B"}', Slots: setOf(manyT), Routes: setOf(manyR) },
				driver: routesDriverOf(A, manyR),
				concs: routesConcs.map(c => ({ ...c, routes: more(c.routes, 'r', 23) })),
				trace: { n: deep ? 10 : 1, len: 300, cfgs: [{ n: 0 }], gen: genOf(manyR, manyT, 0.1) }
			}
		]
	}
}
