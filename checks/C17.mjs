import { browserConcs, browserDriverOf, browserWide } from '../drivers/browser.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

// an error that was dispatched keeps its details when it is thrown again
const genOf = (apps, errs, H, ops) => function gen(r, i, d, _cfg, memo) {
	if (i === 0) Object.assign(memo, { phase: Object.fromEntries(apps.map(a => [a, 'no'])), subs: Object.fromEntries(apps.map(a => [a, []])) })
	const { phase, subs } = memo
	for (;;) {
		const op = pick(r, ops)
		const a = pick(r, apps)
		const built = phase[a] === 'up' || phase[a] === 'down'
		if (op === 'error') return { op, x: pick(r, errs) }
		if (op === 'start' && (phase[a] === 'no' || phase[a] === 'down')) {
			phase[a] = 'building'
			subs[a] = []
			return { op, a, pd: r() < 0.5 }
		}
		if (op === 'finish' && phase[a] === 'building') {
			phase[a] = 'up'
			return { op, a }
		}
		if (op === 'clean' && phase[a] === 'up' && r() < (apps.length > 3 ? 0.05 : 0.4)) {
			phase[a] = 'down'
			return { op, a }
		}
		if (!built) continue
		if (op === 'tamper') return { op, a }
		const h = pick(r, H)
		if (op === 'sub' && !subs[a].includes(h)) {
			subs[a].push(h)
			return { op, a, h, b: pick(r, ['plain', 'plain', 'raise', 'offSelf']) }
		}
		if (op === 'off' && subs[a].includes(h)) {
			subs[a] = subs[a].filter(x => x !== h)
			return { op, a, h }
		}
	}
}
const OPS = ['start', 'start', 'finish', 'finish', 'clean', 'sub', 'sub', 'off', 'tamper', 'error', 'error', 'error', 'error']
const gen = genOf(['A', 'B', 'C'], ['x1', 'x2', 'x3'], ['h1', 'h2'], OPS)
const many = { apps: range('A', 6), errs: range('x', 12), H: range('h', 4) }
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 200, len: 200 } : { n: 15, len: 60 }
		return [
			{
				spec: 'JustBrowser',
				cfg: deep ? 'JustBrowser_C17_deep' : 'JustBrowser_C17',
				driver: browserDriverOf(['A', 'B']),
				concs: browserConcs.map(c => ({ ...c, tourEvery: 4 })),
				tourLen: 200,
				walks
			},
			{ spec: 'JustBrowser', cfg: 'JustBrowser_C17b', driver: browserDriverOf(['A']), concs: browserConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 })), tourLen: 200, walks },
			{
				spec: 'JustBrowser',
				cfg: 'JustBrowser_C17',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B", "C"}' },
				driver: browserDriverOf(['A', 'B', 'C']),
				concs: browserConcs,
				trace: { n: deep ? 30 : 5, len: 100, cfgs: [{ n: 0 }], gen }
			},
			// many apps, many errors
			{
				spec: 'JustBrowser',
				cfg: 'JustBrowser_C17',
				noExplore: true,
				traceConstants: { Apps: setOf(many.apps), H: setOf(many.H) },
				driver: browserDriverOf(many.apps),
				concs: browserWide(12),
				trace: { n: deep ? 8 : 1, len: deep ? 500 : 280, cfgs: [{ n: 0 }], gen: genOf(many.apps, many.errs, many.H, [...OPS, 'error', 'error', 'error', 'error', 'error', 'error']) }
			}
		]
	}
}
