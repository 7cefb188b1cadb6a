import { asyncConcs, asyncDriver } from '../drivers/async.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const plans = ['ret', 'in', 'nothing', 'void', 'rej', 'inRej', 'inRet']
export const asyncGenOf = (ps, hs) => (r, _i, d, cfg) => {
	const cur = d.current()
	const drafts = cfg.kind === 'obj' && cur !== 'U' && cur !== 'N'
	for (;;) {
		const op = pick(r, ['set', 'in', 'reset', 'sub', 'off', 'begin', 'begin', 'settle', 'settle', 'both'])
		if (op === 'set') return { op, c: pick(r, ['a', 'b', 'U', 'N']) }
		if (op === 'reset') return { op }
		if (op === 'in') {
			if (drafts) return { op, c: pick(r, ['a', 'b']) }
			continue
		}
		if (op === 'sub' || op === 'off') {
			const h = pick(r, hs)
			if (d.isSub(h) !== (op === 'off')) continue
			if (op === 'off') return { op, h }
			const b = pick(r, ['plain', 'plain', 'plain', 'setA', 'offSelf'])
			if (b === 'setA' && d.behs().includes('setA')) continue
			return { op, h, b }
		}
		const p = pick(r, ps)
		if (op === 'settle') {
			if (d.pending(p)) return { op, p }
			continue
		}
		if (op === 'both') {
			const q = pick(r, ps)
			if (p !== q && d.pending(p) && d.pending(q)) return { op, p, q }
			continue
		}
		if (d.pending(p)) continue
		const k = pick(r, plans)
		if (k.startsWith('in') && !drafts) continue
		return { op, p, k, c: k === 'ret' || k === 'inRet' ? pick(r, ['a', 'b', 'N']) : 'b' }
	}
}

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustAsync',
				cfg: deep ? 'JustAsync_C04_deep' : 'JustAsync_C04',
				traceConstants: { P: '{"p1", "p2", "p3"}' },
				driver: asyncDriver,
				concs: asyncConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 3 })),
				tourLen: 60,
				walks: deep ? { n: 400, len: 200 } : { n: 40, len: 60 },
				trace: { n: deep ? 20 : 3, len: 150, cfgs: [{ kind: 'obj' }, { kind: 'prim' }], gen: asyncGenOf(range('p', 3), ['h1', 'h2']) }
			},
			{
				// many updates pending at once
				spec: 'JustAsync',
				cfg: 'JustAsync_C04',
				noExplore: true,
				traceConstants: { P: setOf(range('p', 10)) },
				driver: asyncDriver,
				concs: asyncConcs,
				trace: { n: deep ? 10 : 1, len: 250, cfgs: [{ kind: 'obj' }, { kind: 'prim' }], gen: asyncGenOf(range('p', 10), range('h', 8)) }
			}
		]
	}
}
