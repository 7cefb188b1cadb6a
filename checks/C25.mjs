import { domEnv, newDom } from '../lib/bundle.mjs'
import { storageConcs, storageDriver } from '../drivers/storage.mjs'
import { pick } from '../lib/graph.mjs'
import { more, range, setOf } from '../lib/wide.mjs'

const members = ['getItem', 'setItem', 'removeItem', 'clear', 'key', 'length']
const answers = ['null', 'text', 'zero', 'throw', 'undef']
const gen = (ks, stubs, vs = ['v1', 'v2', 'v3'], often) => (r, _i, _d, cfg) => {
	for (;;) {
		const on = often && r() < 0.7 ? stubs[0] : pick(r, [...stubs, ...stubs, 'via', 'via', 'local', 'session'])
		const op = often && r() < 0.5 ? 'set' : pick(r, ['get', 'set', 'set', 'set', 'remove', 'remove', 'clear', 'key', 'length', 'enum', 'enum', 'drain'])
		if ((op === 'clear' || op === 'drain') && r() < (often ? 0.9 : 0.6)) continue
		if ((op === 'enum' || op === 'drain') && on === 'via' && ['key', 'length', 'removeItem'].some(x => cfg.stub[x] !== 'no')) continue
		const e = { op, on }
		if (['get', 'set', 'remove'].includes(op)) e.k = pick(r, ks)
		if (op === 'set') e.v = pick(r, vs)
		if (op === 'drain') e.end = pick(r, ['first', 'last'])
		return e
	}
}
const many = { ks: range('k', 25), vs: range('v', 12), stubs: range('s', 3) }
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: deep ? 200 : 20, len: 25 }
		const part = (x, stubs, ks) => ({
			spec: 'JustStorage',
			cfg: `JustStorage_${x}`,
			driver: storageDriver,
			concs: storageConcs.map(c => ({ ...c, stubs, ks })),
			tourLen: 60,
			walks
		})
		const ks = ['k1', 'k2', 'k3', 'k4']
		const stubs = ['s1', 's2']
		const cfgs = []
		for (let i = 0; i < 24; i++) cfgs.push({ kind: i % 2 ? 'local' : 'session', stub: Object.fromEntries(members.map((m, j) => [m, (i * 7 + j * 5) % 3 ? 'no' : answers[(i + j) % 5]])) })
		return [
			part('C25', ['s1', 's2'], ['k1', 'k2', 'k3']),
			part(deep ? 'deep' : 'C25b', ['s1'], ['k1', 'k2']),
			part('C25c', ['s1'], ks),
			{
				spec: 'JustStorage',
				cfg: 'JustStorage_C25c',
				noExplore: true,
				traceConstants: { Stubs: '{"s1", "s2"}', Kinds: '{"local", "session"}', Answers: '{"null", "text", "zero", "throw", "undef"}', Most: '6', Ons: '{"s1", "s2", "via", "local", "session"}' },
				driver: storageDriver,
				concs: storageConcs.map(c => ({ ...c, stubs, ks })),
				trace: { n: deep ? 150 : 24, len: 60, cfgs, gen: gen(ks, stubs) }
			},
			// many keys
			{
				spec: 'JustStorage',
				cfg: 'JustStorage_C25c',
				noExplore: true,
				traceConstants: {
					Stubs: setOf(many.stubs),
					Keys: setOf(many.ks),
					Vals: setOf(many.vs),
					Kinds: '{"local", "session"}',
					Answers: '{"null", "text", "zero", "throw", "undef"}',
					Most: '6',
					Ons: setOf([...many.stubs, 'via', 'local', 'session'])
				},
				driver: storageDriver,
				concs: storageConcs.map(c => ({ ...c, stubs: many.stubs, ks: many.ks, keys: more(c.keys, 'k', 25), vals: more(c.vals, 'v', 12) })),
				trace: { n: deep ? 10 : 1, len: deep ? 500 : 250, cfgs: cfgs.filter(c => c.stub.getItem === 'no' && c.stub.setItem === 'no'), gen: gen(many.ks, many.stubs, many.vs, true) }
			}
		]
	},
	known: [
		{
			what: "a member of sessionStorage that is not stubbed throws 'Illegal invocation' when called on stubSessionStorage(...)",
			async run(world) {
				const dom = newDom()
				const m = world.freshBrowser(domEnv(dom))
				const s = m.browserTesting.stubSessionStorage({})
				try {
					s.setItem('a', '1')
					return false
				} catch {
					return true
				} finally {
					dom.window.close()
				}
			}
		},
		{
			what: 'a stubbed length of 0 is ignored by stubLocalStorage and stubSessionStorage',
			async run(world) {
				const dom = newDom()
				const m = world.freshBrowser(domEnv(dom))
				dom.window.localStorage.setItem('a', '1')
				const n = m.browserTesting.stubLocalStorage({ length: 0 }).length
				dom.window.close()
				return n === 1
			}
		}
	]
}
