import { platformConcs, platformDriverOf } from '../drivers/platform.mjs'
import { pick } from '../lib/graph.mjs'

const apps = ['A', 'B', 'C']
function gen(r, _i, d) {
	for (;;) {
		const op = pick(r, ['app', 'app', 'app', 'page', 'flip'])
		if (op !== 'app') return { op }
		const a = pick(r, apps)
		if (!d.up(a)) {
			if (r() < 0.5) continue
			return { op: 'create', a, g: pick(r, ['real', 'testNone', 'testTrue', 'testFalse', 'testAsk']) }
		}
		return r() < 0.4 ? { op: 'isMac', a } : { op: 'format', a, k: pick(r, ['both', 'key', 'mac', 'neither']) }
	}
}
const cfgs = ['mac', 'macSafari', 'macOld', 'windows', 'linux', 'android', 'iphone', 'ipad', 'chromeos', 'unknown'].map(page => ({ page }))
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		return [
			{ spec: 'JustPlatform', cfg: 'JustPlatform_C27', driver: platformDriverOf(['A', 'B']), concs: platformConcs, tourLen: 60, walks: { n: deep ? 300 : 20, len: 30 } },
			{
				spec: 'JustPlatform',
				cfg: 'JustPlatform_C27',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B", "C"}' },
				driver: platformDriverOf(apps),
				concs: platformConcs,
				trace: { n: deep ? 100 : 20, len: 40, cfgs, gen }
			}
		]
	}
}
