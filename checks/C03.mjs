import { stateGen, statePart, stateWide } from './states_common.mjs'

export default {
	parts: tier => [
		statePart('C03', tier, {
			kinds: ['obj', 'prim'],
			gen: stateGen({
				ops: ['set', 'ret', 'ret', 'nest', 'in', 'in', 'void', 'nothing', 'throw', 'reset', 'sub', 'off'],
				behs: ['plain', 'setA'],
				contents: ['a', 'b', 'c', 'U'],
				hs: ['h1', 'h2']
			})
		}),
		stateWide('C03', tier, {
			kinds: ['obj', 'prim'],
			ops: ['set', 'ret', 'ret', 'nest', 'in', 'in', 'void', 'nothing', 'throw', 'reset', 'sub', 'sub', 'off'],
			behs: ['plain', 'plain', 'plain', 'setA', 'resetIn', 'down'],
			contents: [...'abcdefghijkl', 'U']
		})
	]
}
