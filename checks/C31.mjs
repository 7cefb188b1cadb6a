import { reachConcs, reachDriverOf } from '../drivers/reach.mjs'
import { pick } from '../lib/graph.mjs'
import { setOf } from '../lib/wide.mjs'

const kinds = ['url', 'init', 'request', 'reject', 'two', 'twin']
const fetches = ['real', 'double', 'own1', 'own2', 'browser', 'browserOpt', 'browserTest', 'browserTestOpt']
const many = ['A', 'B', 'C', 'D', 'E']
const slots = ['k', 'l', 'm', 'n']
/** histories of requests and moves of several apps; apps with a page fetch are created while the page has its first one */
const genOf = apps =>
	function gen(r, i, _d, _cfg, memo) {
		if (i === 0) {
			memo.up = {}
			memo.hs = {}
		}
		for (;;) {
			const a = pick(r, apps)
			const x = memo.up[a]
			if (!x) {
				if (Object.keys(memo.up).length && r() < 0.7) continue
				const f = Array.from({ length: Math.floor(r() * 4) }, () => pick(r, fetches))
				const h = Array.from({ length: 1 + Math.floor(r() * 3) }, () => pick(r, ['page', 'g1', 'g2']))
				memo.up[a] = { f, h: h.at(-1), ls: [] }
				return { op: 'create', a, f, h }
			}
			memo.hs[x.h] ??= { len: 1, idx: 1 }
			const hs = memo.hs[x.h]
			const op = pick(r, ['fetch', 'listen', 'unlisten', 'push', 'push', 'replace', 'back', 'forward'])
			if (op === 'fetch') {
				if (x.f.length) return { op, a, k: pick(r, kinds) }
			} else if (op === 'listen') {
				const l = pick(r, slots)
				if (x.ls.includes(l)) continue
				x.ls.push(l)
				return { op, a, l }
			} else if (op === 'unlisten') {
				if (!x.ls.length) continue
				const l = pick(r, x.ls)
				x.ls = x.ls.filter(y => y !== l)
				return { op, a, l }
			} else if (op === 'push') {
				hs.idx++
				hs.len = hs.idx
				return { op, a, path: pick(r, ['p1', 'p2']) }
			} else if (op === 'replace') return { op, a, path: pick(r, ['p1', 'p2']) }
			else if (op === 'back' && hs.idx > 1) {
				hs.idx--
				return { op, a }
			} else if (op === 'forward' && hs.idx < hs.len) {
				hs.idx++
				return { op, a }
			}
		}
	}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const part = (x, apps, every) => ({
			spec: 'JustReach',
			cfg: `JustReach_${x}`,
			driver: reachDriverOf(apps),
			concs: reachConcs.map(c => ({ ...c, tourEvery: deep ? 1 : every })),
			tourLen: 60,
			walks: { n: deep ? 300 : 15, len: 20 }
		})
		const traces = (apps, trace) => ({ spec: 'JustReach', cfg: 'JustReach_C31', noExplore: true, traceConstants: { Apps: setOf(apps), MaxStack: '1000', Slots: setOf(slots) }, driver: reachDriverOf(apps), concs: reachConcs, trace: { cfgs: [{ n: 0 }], gen: genOf(apps), ...trace } })
		return [
			part('C31', ['A'], 2),
			part('C31b', ['A', 'B'], 2),
			part('C31c', ['A'], 2),
			part('C31d', ['A', 'B'], 1),
			traces(['A', 'B'], { n: deep ? 100 : 10, len: 40 }),
			traces(many, { n: deep ? 20 : 2, len: deep ? 400 : 150 })
		]
	}
}
