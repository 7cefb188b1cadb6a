import { stateGen, statePart, stateWide } from './states_common.mjs'

export default {
	parts: tier => [
		statePart('C02', tier, {
			every: 6,
			kinds: ['obj'],
			inits: ['a'],
			gen: stateGen({
				ops: ['set', 'set', 'in', 'sub', 'sub', 'dup', 'off', 'stale'],
				behs: ['plain', 'offSelf', 'offNext', 'onNext', 'again', 'setA'],
				contents: ['a', 'b'],
				hs: ['h1', 'h2', 'h3']
			})
		}),
		stateWide('C02', tier, {
			kinds: ['obj'],
			inits: ['a'],
			n: 2,
			ops: ['set', 'set', 'in', 'sub', 'sub', 'sub', 'sub', 'dup', 'off', 'stale'],
			behs: ['plain', 'plain', 'plain', 'plain', 'offSelf', 'offNext', 'onNext', 'again', 'setA'],
			contents: ['a', 'b']
		})
	]
}
