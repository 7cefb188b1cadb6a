import { longConcs } from '../drivers/state.mjs'
import { stateGen, statePart, stateWide } from './states_common.mjs'

export default {
	parts: tier => [
		statePart('C01', tier, {
			deepCfg: 'JustState_C01_deep',
			every: 3,
			kinds: ['obj', 'prim', 'fun'],
			gen: stateGen({
				ops: ['set', 'set', 'same', 'ret', 'nest', 'in', 'void', 'reset', 'sub', 'sub', 'off'],
				behs: ['plain', 'plain', 'setA', 'resetIn'],
				contents: ['a', 'b', 'U'],
				hs: ['h1', 'h2', 'h3']
			})
		}),
		statePart('C01b', tier, {
			kinds: ['obj', 'prim'],
			inits: ['a'],
			n: 1,
			gen: stateGen({
				ops: ['set', 'in', 'ret', 'sub', 'sub', 'off'],
				behs: ['plain', 'setA'],
				contents: ['a', 'b', 'U'],
				hs: ['h1', 'h2', 'h3']
			})
		}),
		stateWide('C01', tier, { kinds: ['obj', 'prim', 'fun'], ops: ['set', 'set', 'ret', 'nest', 'in', 'reset', 'sub', 'sub', 'sub', 'off'], behs: ['plain', 'plain', 'plain', 'setA', 'resetIn', 'down'], contents: [...'abcdefghijkl', 'U'] }),
		stateWide('C01', tier, {
			kinds: ['obj'],
			inits: ['a'],
			len: 120,
			subs: 60,
			concs: longConcs.slice(0, 2),
			ops: ['set', 'sub', 'sub', 'sub', 'sub', 'sub', 'sub', 'off'],
			behs: ['plain', 'plain', 'plain', 'setA', 'resetIn'],
			contents: [...'abcdefghijkl', 'U']
		})
	]
}
