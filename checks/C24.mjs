import { presetConcs, presetDriverOf } from '../drivers/preset.mjs'
import { pick } from '../lib/graph.mjs'
import { setOf } from '../lib/wide.mjs'

const bool = r => r() < 0.5
const many = ['A', 'B', 'C', 'D', 'E', 'F']
const genOf = apps => function gen(r, i, _d, _cfg, memo) {
	if (i === 0) memo.up = []
	for (;;) {
		const a = pick(r, apps)
		if (!memo.up.includes(a)) {
			if (memo.up.length && r() < 0.7) continue
			memo.up.push(a)
			const p = pick(r, ['real', 'test'])
			return {
				op: 'create',
				a,
				c: { p, kb: bool(r), early: pick(r, ['none', 'own', 'page']), opt: bool(r), late: r() < 0.2, hist: bool(r), dbl: p === 'real' ? 'none' : pick(r, ['none', 'local', 'all']) }
			}
		}
		const op = pick(r, ['fetch', 'push', 'pref'])
		if (op === 'fetch') return { op, a, k: pick(r, ['url', 'init', 'request', 'reject']) }
		if (op === 'push') return { op, a, path: pick(r, ['p1', 'p2']) }
		return { op, a, v: pick(r, ['set', 'set', 'remove']) }
	}
}
const gen = genOf(['A', 'B', 'C'])
const concs = presetConcs.map(c => ({ ...c, names: { ...c.names, C: 'third' } }))
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: deep ? 300 : 20, len: 15 }
		const part = (x, apps, every) => ({
			spec: 'JustPreset',
			cfg: `JustPreset_${x}`,
			driver: presetDriverOf(apps),
			concs: concs.map(c => ({ ...c, tourEvery: deep ? 1 : every })),
			tourLen: 40,
			walks
		})
		return [
			part('C24', ['A'], 1),
			part('C24b', ['A', 'B'], 2),
			{ spec: 'JustPreset', cfg: 'JustPreset_C24', noExplore: true, traceConstants: { Apps: '{"A", "B", "C"}' }, driver: presetDriverOf(['A', 'B', 'C']), concs, trace: { n: deep ? 100 : 15, len: 30, cfgs: [{ n: 0 }], gen } },
			{
				spec: 'JustPreset',
				cfg: 'JustPreset_C24',
				noExplore: true,
				traceConstants: { Apps: setOf(many) },
				driver: presetDriverOf(many),
				concs: concs.map(c => ({ ...c, names: { ...c.names, D: 'd', E: 'long'.repeat(40), F: 'F' } })),
				trace: { n: deep ? 20 : 2, len: deep ? 300 : 120, cfgs: [{ n: 0 }], gen: genOf(many) }
			}
		]
	}
}
