// Binds JustPlatform.tla to the os gizmos on pages of several platforms, and to formatKeyBinding().
import { amid } from './apps.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'

const UA = {
	mac: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	macSafari: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.1 Safari/605.1.15',
	macOld: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10.9; rv:50.0) Gecko/20100101 Firefox/50.0',
	windows: 'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	linux: 'Mozilla/5.0 (X11; Ubuntu; Linux x86_64; rv:109.0) Gecko/20100101 Firefox/119.0',
	android: 'Mozilla/5.0 (Linux; Android 13; Pixel 7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/116.0.0.0 Mobile Safari/537.36',
	iphone:
		'Mozilla/5.0 (iPhone; CPU iPhone OS 16_6 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.6 Mobile/15E148 Safari/604.1',
	ipad: 'Mozilla/5.0 (iPad; CPU OS 12_2 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/12.1 Mobile/15E148 Safari/604.1',
	chromeos: 'Mozilla/5.0 (X11; CrOS x86_64 14541.0.0) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/119.0.0.0 Safari/537.36',
	unknown: 'x'
}
export const platformConcs = [
	{ name: 'plain', names: { A: 'app', B: 'app2', C: 'app3' }, id: 'Some.Command', key: 'ctrl+k', mac: 'cmd+k', frozen: true },
	{ name: 'test', test: true, none: { isMac: undefined }, names: { A: 'one', B: 'one', C: 'three' }, id: 'constructor', key: 'f1', mac: 'f1+shift' },
	{ name: 'sequence', test: true, names: { A: 'a', B: 'a:b', C: 'c' }, id: '', key: 'g i', mac: 'cmd+k cmd+s' }
]

export async function platformDriver(world, conc, cfg, apps) {
	const m = ((world.cached.platform ??= {})[cfg.page] ??= world.freshBrowser(domEnv(newDom({ userAgent: UA[cfg.page] }))))
	const A = {}
	let answer = false
	const yes = x => (x === true ? 'yes' : x === false ? 'no' : `?${x}`)
	return {
		async step(e) {
			switch (e.op) {
				case 'create': {
					const os = {
						real: () => m.os.osGizmo,
						testNone: () => (Object.keys(A).length % 2 ? m.osTesting.osTestGizmoFn(conc.none ?? {}) : m.osTesting.osTestGizmoFn()),
						testTrue: () => m.osTesting.osTestGizmoFn({ isMac: () => true }),
						testFalse: () => m.osTesting.osTestGizmoFn({ isMac: () => false }),
						testAsk: () => m.osTesting.osTestGizmoFn({ isMac: () => answer })
					}[e.g]()
					const make = conc.test ? m.appTesting.justTestApp : m.app.justApp
					const app = (name, os) => make({ name, log: { logLevel: 0 } }).with(m.keyboard.keyboardGizmoFn()).with(os)
					const others = [true, false].map(x => app('other', m.osTesting.osTestGizmoFn({ isMac: () => x })))
					A[e.a] = await amid(app(conc.names[e.a], os), ...others)
					return '-'
				}
				case 'isMac': {
					const { os } = A[e.a]
					return yes(os.isMac())
				}
				case 'page':
					return yes((0, m.os.isMac)())
				case 'format': {
					const kb = { id: conc.id }
					if (e.k === 'both' || e.k === 'key') kb.key = conc.key
					if (e.k === 'both' || e.k === 'mac') kb.mac = conc.mac
					const before = JSON.stringify(kb)
					const r = m.keyboard.formatKeyBinding(A[e.a], conc.frozen ? Object.freeze(kb) : kb)
					if (r.id !== conc.id || JSON.stringify(kb) !== before) return `?${JSON.stringify(r)}`
					return r.key === undefined ? 'none' : r.key === conc.key ? 'key' : r.key === conc.mac ? 'mac' : `?${r.key}`
				}
				case 'flip':
					answer = !answer
					return '-'
			}
		},
		obs() {
			return Object.fromEntries(apps.map(a => [a, A[a] ? { yes: 'mac', no: 'other' }[yes(A[a].os.isMac())] : 'no']))
		},
		up: a => !!A[a]
	}
}
export const platformDriverOf = apps => (world, conc, cfg) => platformDriver(world, conc, cfg, apps)
