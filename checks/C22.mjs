import { idConcs, idDriver } from '../drivers/id.mjs'
import { pick } from '../lib/graph.mjs'

const forms = ['id', 'idTest', 'justApp', 'justTestApp', 'preset', 'presetTest', 'all']
const draws = ['long', 'long2', 'short', 'short2', 'short3', 'zero', 'tiny', 'top', 'half']
function gen(r, i, _d, _cfg, memo) {
	memo.n ??= 0
	if (i === 0 || r() < 0.25) {
		memo.n++
		const f = pick(r, forms)
		const byDefault = ['idTest', 'justTestApp', 'presetTest', 'all'].includes(f)
		return { op: 'builder', f, name: pick(r, byDefault ? ['none', 'n1', 'n2'] : ['n1', 'n2']) }
	}
	return { op: 'create', b: 1 + Math.floor(r() * memo.n), d: pick(r, draws) }
}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: 20, len: 10 }
		return [
			{ spec: 'JustId', cfg: 'JustId_C22', driver: idDriver, concs: idConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 2 })), tourLen: 40, walks },
			{ spec: 'JustId', cfg: 'JustId_C22b', driver: idDriver, concs: idConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 4 })), tourLen: 40, walks },
			{ spec: 'JustId', cfg: 'JustId_C22', noExplore: true, driver: idDriver, concs: idConcs, trace: { n: deep ? 60 : 6, len: deep ? 60 : 30, cfgs: [{ n: 0 }], gen } },
			// many apps
			{ spec: 'JustId', cfg: 'JustId_C22', noExplore: true, driver: idDriver, concs: idConcs, trace: { n: deep ? 10 : 1, len: deep ? 400 : 150, cfgs: [{ n: 0 }], gen } }
		]
	}
}
