import { prefStoreConcs, prefStoreDriverOf } from '../drivers/pref_store.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const S = ['s1', 's2', 's3']
const vals = ['a', 'null', 'false', 'zero', 'empty', 'neg', 'text', 'D']
const ps = range('p', 6)
const plans = ['ret', 'ret', 'nothing', 'void', 'in', 'in', 'inRet', 'throw', 'inThrow']
const mutable = (cfg, v) => v === 'a' || v === 'b' || (v === 'D' && cfg.dflt === 'obj')
function gen(r, _i, d, cfg) {
	for (;;) {
		const op = pick(r, ['set', 'set', 'upd', 'upd', 'upd', 'begin', 'begin', 'settle', 'settle', 'raw', 'clear', 'scribble'])
		const x = pick(r, S)
		if (op === 'set') return { op, x, v: pick(r, [...vals, '-']) }
		if (op === 'raw') return { op, k: pick(r, ['k1', 'k2']), v: pick(r, [...vals, '-']) }
		if (op === 'clear') {
			if (r() < 0.4) return { op }
			continue
		}
		const p = pick(r, ps)
		if (op === 'settle') {
			if (d.pending(p)) return { op, p }
			continue
		}
		if (op === 'scribble') {
			if (d.stored(x) && mutable(cfg, d.see(x))) return { op, x }
			continue
		}
		const plan = pick(r, plans)
		if (plan.startsWith('in') && !mutable(cfg, d.see(x))) continue
		if (op === 'upd') return { op, x, plan, v: pick(r, vals) }
		if (!d.pending(p)) return { op, x, plan, v: pick(r, vals), p }
	}
}
// a flat default has to differ from the values in use
const falsy = [0, '', 'default', 0]
const truthy = [1, ' ', 'default', true]
const flat = xs => prefStoreConcs.map((c, i) => ({ ...c, flatD: xs[i] }))
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 300, len: 200 } : { n: 30, len: 60 }
		return [
			{
				spec: 'JustPrefStore',
				cfg: deep ? 'JustPrefStore_C14_deep' : 'JustPrefStore_C14',
				driver: prefStoreDriverOf(deep ? S : ['s1', 's2']),
				concs: flat(falsy).map(c => ({ ...c, tourEvery: 4 })),
				walks
			},
			{ spec: 'JustPrefStore', cfg: 'JustPrefStore_C14b', driver: prefStoreDriverOf(S), concs: flat(truthy), walks },
			{
				spec: 'JustPrefStore',
				cfg: 'JustPrefStore_C14b',
				noExplore: true,
				traceConstants: { P: setOf(ps), Vals: setOf(vals) },
				driver: prefStoreDriverOf(S),
				concs: flat(truthy),
				trace: {
					n: deep ? 30 : 6,
					len: 200,
					cfgs: ['mem', 'stub'].flatMap(backend => ['obj', 'flat'].map(dflt => ({ backend, dflt }))),
					gen
				}
			}
		]
	}
}
