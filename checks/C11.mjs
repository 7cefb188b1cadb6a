import { keyboardConcs, keyboardDriver, keyboardWide } from '../drivers/keyboard.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const ids = ['i1', 'i2', 'i3']
const ks = ['k1', 'k2', 'k3']
const manyIds = range('i', 12)
const manyKs = range('k', 10)
const behs = ['plain', 'plain', 'throw', 'drop', 'add', 'move']
const genOf = (ids, ks, handled) => (r, n, d, cfg) => {
	// what is bound at first
	if (cfg.given.length > ks.length && n < ks.length) return { op: 'press', k: ks[n] }
	for (;;) {
		const op = pick(r, ['press', 'press', 'press', 'handle', 'add', 'add', 'replace', 'remove', r() < 0.2 ? 'clear' : 'add', r() < 0.3 ? 'reset' : 'press'])
		if (op === 'press') return { op, k: pick(r, ks) }
		if (op === 'handle') return { op, i: pick(r, handled), b: pick(r, behs) }
		if (op === 'clear' || op === 'reset') return { op }
		const i = pick(r, ids)
		if (op === 'add' || op === 'replace') {
			if (op === 'replace' && !d.has(i)) continue
			return { op, i, key: pick(r, [...ks, ...ks, 'none']), mac: pick(r, [...ks, 'none', 'none']) }
		}
		if (d.has(i)) return { op, i }
	}
}

export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{
				spec: 'JustKeyboard',
				cfg: deep ? 'JustKeyboard_C11_deep' : 'JustKeyboard_C11',
				driver: keyboardDriver,
				concs: keyboardConcs,
				walks: deep ? { n: 200, len: 150 } : { n: 20, len: 60 },
				trace: {
					n: deep ? 20 : 4,
					len: 100,
					cfgs: [
						{ given: [], mac: false },
						{ given: [], mac: true },
						{ given: [{ i: 'i3', key: 'k1', mac: 'none' }, { i: 'i1', key: 'k3', mac: 'k1' }], mac: true },
						{ given: [{ i: 'i2', key: 'none', mac: 'k1' }, { i: 'i1', key: 'k3', mac: 'k1' }], mac: false }
					],
					gen: genOf(ids, ks, ['i1', 'i2'])
				}
			},
			{
				spec: 'JustKeyboard',
				cfg: deep ? 'JustKeyboard_C11b_deep' : 'JustKeyboard_C11b',
				driver: keyboardDriver,
				concs: keyboardConcs.map(c => ({ ...c, handled: deep ? ['i1', 'i2'] : ['i1'] })),
				walks: deep ? { n: 200, len: 150 } : { n: 10, len: 60 }
			},
			{
				spec: 'JustKeyboard',
				cfg: 'JustKeyboard_C11',
				noExplore: true,
				traceConstants: { Ids: setOf(manyIds), Keys: setOf(manyKs), Handled: setOf(range('i', 9)) },
				driver: keyboardDriver,
				concs: keyboardWide(),
				trace: { n: deep ? 10 : 2, len: 250, cfgs: [{ given: [], mac: false }, { given: [{ i: 'i7', key: 'k4', mac: 'k9' }, { i: 'i11', key: 'k9', mac: 'none' }], mac: true }, { given: manyIds.map((i, n) => ({ i, key: manyKs[n] ?? 'k1', mac: 'none' })), mac: false }], gen: genOf(manyIds, manyKs, range('i', 9)) }
			}
		]
	}
}
