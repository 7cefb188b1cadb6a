import { longConcs, stateConcs, stateDriver } from '../drivers/state.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const writes = b => ['setA', 'resetIn', 'down'].includes(b)

/** random operations on one cell, with every behaviour of subscribers */
export function stateGen({ ops, behs, contents, hs }) {
	return (r, _i, d, cfg) => {
		const cur = d.current()
		const drafts = cfg.kind === 'obj' && cur.c !== 'U'
		for (;;) {
			const op = pick(r, ops)
			if (op === 'set') return { op, c: pick(r, contents) }
			if (op === 'ret' || op === 'in') {
				if (cfg.kind === 'fun' || (op === 'in' && !drafts)) continue
				return { op, c: pick(r, contents.filter(c => c !== 'U')) }
			}
			if (op === 'nest') {
				if (cfg.kind === 'fun') continue
				return { op, w: pick(r, ['a', 'b', 'reset', 'on', 'off']), c: pick(r, contents.filter(c => c !== 'U')) }
			}
			if (op === 'void' || op === 'nothing' || op === 'throw') {
				if (cfg.kind === 'fun') continue
				return { op }
			}
			if (op === 'late' || op === 'poke') {
				if (!drafts) continue
				return { op }
			}
			if (op === 'same' || op === 'reset') return { op }
			const h = pick(r, hs)
			if (op === 'sub') {
				if (d.isSub(h)) continue
				const b = pick(r, behs)
				// one subscriber that writes at a time: two could go on for ever
				if (writes(b) && d.behs().some(writes)) continue
				return { op, h, b }
			}
			if (op === 'dup' || op === 'off') {
				if (!d.isSub(h)) continue
				return { op, h }
			}
			if (op === 'stale') {
				if (!d.hasStale(h)) continue
				return { op, h }
			}
		}
	}
}

export function statePart(name, tier, { kinds, gen, n = 3, len = 150, every = 1, inits = ['a', 'U'], ...over }) {
	const deep = tier === 'thorough'
	return {
		spec: 'JustState',
		cfg: deep && over.deepCfg ? over.deepCfg : `JustState_${name}`,
		driver: stateDriver,
		concs: stateConcs.map(c => ({ ...c, tourEvery: deep ? 1 : every })),
		tourLen: 60,
		walks: deep ? { n: 400, len: 200 } : { n: 40, len: 80 },
		trace: {
			n: deep ? n * 8 : n,
			len: deep ? len * 2 : len,
			cfgs: kinds.flatMap(kind => inits.filter(i => !(kind === 'fun' && i === 'U')).map(init => ({ kind, init }))),
			gen
		},
		...over
	}
}

/** long histories with many subscribers */
export function stateWide(name, tier, { kinds, ops, behs, contents, inits = ['a', 'U'], n = 1, len = 300, subs = 12, concs = longConcs }) {
	const hs = range('h', subs)
	const { cfg, spec, driver, trace } = statePart(name, tier, { kinds, inits, n, len, gen: stateGen({ ops, behs, contents, hs }) })
	return { spec, cfg, noExplore: true, traceConstants: { H: setOf(hs), Contents: setOf(contents) }, driver, concs, trace }
}
