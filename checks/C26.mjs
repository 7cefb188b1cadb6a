import { stateLogConcs, stateLogDriverOf } from '../drivers/statelog.mjs'
import { pick } from '../lib/graph.mjs'

const cells = ['c1', 'c2', 'c3', 'c4']
const hs = ['h1', 'h2', 'h3', 'h4']
function gen(r, i, d, _cfg, memo) {
	if (i === 0) memo.setA = {}
	for (;;) {
		const c = pick(r, cells)
		if (!d.up(c)) {
			if (i && r() < 0.8) continue
			return { op: 'create', c, a: pick(r, ['A', 'B']), lg: pick(r, ['own', 'own', 'sub', 'loud', 'other', 'page']) }
		}
		const op = pick(r, ['set', 'set', 'ret', 'nest', 'in', 'settle', 'void', 'throw', 'reset', 'sub', 'sub', 'dup', 'off'])
		if (['set', 'ret', 'settle'].includes(op)) return { op, c, v: pick(r, ['a', 'b', 'c']) }
		if (op === 'nest') return { op, c, w: pick(r, ['a', 'b', 'c']), v: pick(r, ['a', 'b', 'c']) }
		if (op === 'in') return { op, c, v: pick(r, ['b', 'c']) }
		if (['void', 'throw', 'reset'].includes(op)) return { op, c }
		const h = pick(r, hs)
		if (op === 'sub') {
			if (d.has(c, h)) continue
			const b = !memo.setA[c] && r() < 0.3 ? 'setA' : 'plain'
			if (b === 'setA') memo.setA[c] = h
			return { op, c, h, b }
		}
		if (!d.has(c, h)) continue
		if (op === 'off' && memo.setA[c] === h) delete memo.setA[c]
		return { op, c, h }
	}
}
const levels = ['info', 'trace', 'planck']
const cfgs = levels.flatMap(A => levels.map(B => ({ A, B }))).concat([{ A: 'planck', B: 'planck' }, { A: 'planck', B: 'trace' }])
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 300, len: 200 } : { n: 20, len: 60 }
		const part = (x, cs, every) => ({
			spec: 'JustStateLog',
			cfg: `JustStateLog_${x}`,
			driver: stateLogDriverOf(['A', 'B'], cs),
			concs: stateLogConcs.map(c => ({ ...c, tourEvery: deep ? 1 : every })),
			tourLen: 100,
			walks
		})
		return [
			part('C26', ['c1'], 3),
			part('C26b', ['c1', 'c2'], 4),
			{
				spec: 'JustStateLog',
				cfg: 'JustStateLog_C26',
				noExplore: true,
				traceConstants: { Cells: `{${cells.map(x => `"${x}"`)}}`, H: `{${hs.map(x => `"${x}"`)}}` },
				driver: stateLogDriverOf(['A', 'B'], cells),
				concs: stateLogConcs,
				trace: { n: deep ? 40 : 6, len: deep ? 300 : 120, cfgs, gen }
			}
		]
	}
}
