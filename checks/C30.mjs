import { builtinConcs, builtinDriverOf } from '../drivers/builtin.mjs'
import { pick } from '../lib/graph.mjs'

const kinds = ['plain', 'keys', 'bare', 'memory', 'lang', 'full', 'full', 'mine', 'mineBare']
const gen = apps => (r, _i, d) => {
	for (;;) {
		const a = pick(r, apps)
		const k = d.kindOf(a)
		if (!k) {
			if (r() < 0.6) continue
			return { op: 'up', a, k: pick(r, kinds) }
		}
		const op = pick(r, ['call', 'call', 'call', 'pkg', 'pkg', 'palette', 'replace', 'setLanguage'])
		if (op === 'palette') return { op, a }
		const c = pick(r, ['show', 'get', 'get', 'set', 'set', 'clear', 'lang'])
		if (op === 'replace') {
			if (r() < 0.7) continue
			return { op, a, c }
		}
		const l = pick(r, ['l1', 'l2'])
		if (op === 'setLanguage') {
			if (!['full', 'mine', 'lang'].includes(k)) continue
			return { op, a, v: l }
		}
		const v = c === 'lang' ? l : ['show', 'clear'].includes(c) ? 'none' : pick(r, ['v1', 'v2', 'v3', 'none'])
		return op === 'call' ? { op, a, c, v } : { op, c, v }
	}
}
const abc = ['A', 'B', 'C']
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: deep ? 200 : 15, len: 60 }
		const part = (x, apps, every) => ({
			spec: 'JustBuiltin',
			cfg: `JustBuiltin_${x}`,
			driver: builtinDriverOf(apps),
			concs: builtinConcs.map((c, i) => ({ ...c, tourEvery: deep ? 1 : every === 1 && i ? 2 : every })),
			tourLen: 80,
			walks
		})
		return [
			part('C30', ['A'], 1),
			part('C30b', ['A', 'B'], 3),
			{
				spec: 'JustBuiltin',
				cfg: 'JustBuiltin_C30b',
				noExplore: true,
				traceConstants: {
					Apps: '{"A", "B", "C"}',
					Kinds: '{"plain", "keys", "bare", "memory", "lang", "full", "mine", "mineBare"}',
					Vals: '{"v1", "v2", "v3"}',
					Langs: '{"l1", "l2"}',
					Ops: '{"up", "palette", "replace", "call", "pkg", "press", "setLanguage"}'
				},
				driver: builtinDriverOf(abc),
				concs: builtinConcs,
				trace: { n: deep ? 40 : 5, len: 150, cfgs: [{ n: 0 }], gen: gen(abc) }
			}
		]
	}
}
