import { asyncConcs, asyncDriver } from '../drivers/async.mjs'
import { asyncGenOf } from './C04.mjs'
import { stateGen, statePart, stateWide } from './states_common.mjs'

export default {
	parts: tier => [
		statePart('C05', tier, {
			kinds: ['obj'],
			gen: stateGen({
				ops: ['set', 'ret', 'in', 'in', 'nothing', 'throw', 'reset', 'poke', 'late', 'sub'],
				behs: ['plain', 'setA'],
				contents: ['a', 'b', 'c', 'U'],
				hs: ['h1', 'h2']
			})
		}),
		stateWide('C05', tier, {
			kinds: ['obj'],
			ops: ['set', 'ret', 'in', 'in', 'nothing', 'throw', 'reset', 'reset', 'poke', 'late', 'sub', 'off'],
			behs: ['plain', 'plain', 'plain', 'setA', 'resetIn', 'down'],
			contents: [...'abcdefghijkl', 'U']
		}),
		// what asynchronous updaters resolve to
		{
			spec: 'JustAsync',
			cfg: 'JustAsync_C04',
			traceConstants: { P: '{"p1", "p2", "p3"}' },
			driver: asyncDriver,
			concs: asyncConcs.map(c => ({ ...c, tourEvery: tier === 'thorough' ? 1 : 6 })),
			tourLen: 60,
			walks: tier === 'thorough' ? { n: 200, len: 200 } : { n: 10, len: 60 },
			trace: { n: tier === 'thorough' ? 10 : 1, len: 150, cfgs: [{ kind: 'obj' }], gen: asyncGenOf(['p1', 'p2', 'p3'], ['h1', 'h2']) }
		}
	]
}
