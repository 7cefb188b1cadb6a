import { appConcs, appDriver } from '../drivers/app.mjs'
import { pick } from '../lib/graph.mjs'

const kinds = ['plain', 'async', 'start', 'start', 'astart', 'merge', 'void', 'log', 'nolog', 'gate', 'gate']
const begins = ['none', 'plain', 'close', 'close', 'fail']
// the driver tells which creations wait or are done
function gen(r, i, d) {
	for (;;) {
		const runs = d.obs()
		const waiting = runs.flatMap((x, k) => (x === 'wait' ? [k + 1] : []))
		const op = i < 3 ? 'with' : pick(r, ['with', 'init', 'create', 'create', 'both', 'release', 'release', 'release', 'cleanup'])
		if (op === 'with' && !waiting.length && (i < 6 || r() < 0.4)) {
			const k = r() < 0.01 ? pick(r, ['fail', 'failStart']) : pick(r, kinds)
			return { op, k, x: pick(r, ['x', 'y']) }
		}
		if (op === 'init' && !waiting.length && r() < 0.3) return { op, k: pick(r, begins.slice(1, 4)) }
		if (op === 'create' || op === 'both') return { op, begin: pick(r, begins) }
		if (op === 'release' && waiting.length) return { op, n: pick(r, waiting) }
		const ok = runs.flatMap((x, k) => (typeof x === 'object' ? [k + 1] : []))
		if (op === 'cleanup' && ok.length) return { op, n: pick(r, ok) }
	}
}
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = deep ? { n: 2000, len: 60 } : { n: 100, len: 20 }
		return [
			{ spec: 'JustApp', cfg: deep ? 'JustApp_C21_deep' : 'JustApp_C21', driver: appDriver, concs: appConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 3 })), tourLen: 60, walks },
			{ spec: 'JustApp', cfg: deep ? 'JustApp_C21b_deep' : 'JustApp_C21b', driver: appDriver, concs: appConcs.map(c => ({ ...c, tourEvery: deep ? 1 : 5 })), tourLen: 60, walks },
			{ spec: 'JustApp', cfg: 'JustApp_C21', noExplore: true, driver: appDriver, concs: appConcs, trace: { n: deep ? 40 : 6, len: deep ? 60 : 40, cfgs: [{ n: 0 }], gen } },
			// many parts, many creations
			{ spec: 'JustApp', cfg: 'JustApp_C21', noExplore: true, driver: appDriver, concs: appConcs, trace: { n: deep ? 10 : 1, len: deep ? 250 : 150, cfgs: [{ n: 0 }], gen } }
		]
	}
}
