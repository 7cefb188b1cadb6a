import { prefsConcs, prefsDriverOf, prefsWide } from '../drivers/prefs.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

export const prefsGen = (insts, ps, vals, foreign, keys = ['k1', 'k2']) => (r, n, d, cfg, memo) => {
	// some begin with every key in use
	if (n === 0) memo.full = keys.length > 9 && r() < 0.5
	if (memo.full && n < keys.length) return { op: 'set', i: insts[0], k: keys[n], v: vals[n % vals.length] }
	const browser = cfg.backend !== 'mem'
	for (;;) {
		const op = pick(r, ['set', 'set', 'nothing', 'upd', 'upd', 'begin', 'begin', 'settle', 'settle', 'clear', 'fault', 'other', 'reload'])
		const i = pick(r, insts)
		const k = pick(r, keys)
		const v = pick(r, vals)
		switch (op) {
			case 'set':
				return { op, i, k, v: pick(r, [...vals, '-']) }
			case 'nothing':
				return { op, i, k }
			case 'upd':
				return { op, i, k, plan: pick(r, ['ret', 'ret', 'undef', 'nothing', 'throw']), v }
			case 'begin': {
				const p = pick(r, ps)
				if (d.pending(p)) continue
				return { op, i, k, p, plan: pick(r, ['ret', 'ret', 'undef', 'nothing', 'throw']), v }
			}
			case 'settle': {
				const p = pick(r, ps)
				if (d.pending(p)) return { op, i: 'A', p }
				continue
			}
			case 'clear':
				if (r() < (keys.length > 9 ? 0.1 : 0.4)) return { op, i }
				continue
			default:
				if (!browser || !foreign || r() < 0.4) continue
				if (op === 'fault') return { op, i: 'A', on: !d.failing() }
				if (op === 'other') return { op, i: 'A', f: 'f1' }
				return { op, i: 'A' }
		}
	}
}
const vals = ['v1', 'E', 'v2', 'L', 'W', 'D']
/** long histories of many apps, keys and values */
export const prefsWidePart = (cfg, deep, backends, insts, foreign) => {
	const { keys, concs } = prefsWide()
	const ps = range('p', 6)
	return {
		spec: 'JustPrefs',
		cfg,
		noExplore: true,
		traceConstants: { Insts: setOf(insts), P: setOf(ps), Keys: setOf(keys), Vals: setOf(vals), ...(foreign ? { Foreign: '{"f1"}' } : {}) },
		driver: prefsDriverOf(insts, foreign, keys.length),
		concs,
		trace: { n: deep ? 10 : 2, len: 200, cfgs: backends.map(backend => ({ backend })), gen: prefsGen(insts, ps, vals, foreign, keys) }
	}
}
export { pick, prefsConcs, prefsDriverOf }
