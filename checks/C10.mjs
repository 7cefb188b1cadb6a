import { commandConcs, commandDriverOf } from '../drivers/commands.mjs'
import { pick } from '../lib/graph.mjs'
import { more } from '../lib/wide.mjs'

const kbd2 = { A: true, B: false }
const kbd3 = { A: true, B: false, D: true }
const declWide = { c1: 'key', c2: 'id', c3: 'mac', c4: 'info', c5: 'id', c6: 'key', c7: 'info' }
const kbdWide = { A: true, B: false, D: true, E: false, F: true }
const gen = (cs, apps) => r => {
	const op = pick(r, ['call', 'call', 'call', 'define', 'connect', 'connect', 'register', 'format'])
	const f = pick(r, ['f1', 'f1', 'f2', 'fT', 'fA', 'fB', 'fD', 'fR', 'fN'])
	const c = pick(r, cs)
	switch (op) {
		case 'call':
			return { op, c, args: Array.from({ length: Math.floor(r() * 4) }, () => pick(r, ['a', 'b', 'U'])) }
		case 'define':
			return { op, c, f }
		case 'connect':
			return { op, c, a: pick(r, apps), f: r() < 0.4 ? 'none' : f }
		case 'register':
			return { op, c, a: pick(r, apps), f }
		default:
			return {
				op,
				own: r() < 0.2 ? pick(r, ['t', 'My own Title', 'a.b']) : 'none',
				segs: Array.from({ length: 1 + Math.floor(r() * 4) }, () => Array.from({ length: 1 + Math.floor(r() * 3) }, () => pick(r, ['show', 'the', 'command', 'palette', 'now'])))
			}
	}
}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 500, len: 200 } : { n: 20, len: 60 }
		return [
			{
				spec: 'JustCommand',
				cfg: 'JustCommand_C10',
				driver: commandDriverOf({ c1: 'key' }, kbd2),
				concs: commandConcs,
				walks
			},
			{
				spec: 'JustCommand',
				cfg: 'JustCommand_C10b',
				driver: commandDriverOf({ c1: 'mac', c2: 'info' }, kbd2),
				concs: commandConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 4 })),
				walks
			},
			{
				spec: 'JustCommand',
				cfg: 'JustCommand_C10',
				noExplore: true,
				traceConstants: { Decl: '<- DeclKeyId', Kbd: '<- Kbd3' },
				driver: commandDriverOf({ c1: 'key', c2: 'id' }, kbd3),
				concs: commandConcs,
				trace: { n: deep ? 30 : 4, len: 100, cfgs: [{ given: [] }, { given: ['c1'] }, { given: ['c2'] }, { given: ['c1', 'c2'] }], gen: gen(['c1', 'c2'], ['A', 'B', 'D']) }
			},
			{
				spec: 'JustCommand',
				cfg: 'JustCommand_C10',
				noExplore: true,
				traceConstants: { Decl: '<- DeclWide', Kbd: '<- KbdWide' },
				driver: commandDriverOf(declWide, kbdWide),
				concs: commandConcs.map(c => ({ ...c, ids: more(c.ids, 'c', 7) })),
				trace: { n: deep ? 10 : 1, len: 250, cfgs: [{ given: ['c2', 'c4', 'c6'] }], gen: gen(Object.keys(declWide), Object.keys(kbdWide)) }
			}
		]
	}
}
