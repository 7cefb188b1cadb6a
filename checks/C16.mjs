import { domEnv, newDom } from '../lib/bundle.mjs'
import { makeApp } from '../drivers/apps.mjs'
import { pageConcs, pageDriverOf } from '../drivers/page.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const few = { ks: ['k1', 'k2'], vs: ['v1', 'v2'], ls: ['l1', 'l2'], cs: ['c1', 'c2'], rs: ['r1', 'r2'] }
const many = { ks: range('k', 12), vs: range('v', 10), ls: range('l', 10), cs: range('c', 10), rs: range('r', 12) }
const ALL = ['pref', 'pref', 'clear', 'lang', 'unlang', 'handler', 'connect', 'contrib', 'keyb', 'run', 'run', 'palette', 'show', 'route', 'unroute', 'unroutes', 'go', 'go', 'emit', 'emitThrow', 'log']
const gen = (apps, { ks, vs, ls, cs, rs } = few) => (r, i, _d, _cfg, memo) => {
	if (i === 0) Object.assign(memo, { up: {}, making: {} })
	const { up } = memo
	for (;;) {
		const a = pick(r, apps)
		if (!up[a]) {
			if (memo.making[a]) {
				if (r() < 0.8) continue
				const { making } = memo
				if (Object.keys(making).length > 1 && r() < 0.6) {
					for (const b of Object.keys(making)) up[b] = {}
					memo.making = {}
					return { op: 'together', a }
				}
				delete making[a]
				up[a] = {}
				return { op: 'finish', a }
			}
			if (Object.keys(up).length && r() < 0.7) continue
			if (r() < 0.3) {
				const all = apps.filter(b => !up[b] && !memo.making[b])
				if (all.length > 1) {
					for (const b of all) up[b] = {}
					return { op: 'all', a }
				}
			}
			if (r() < 0.6) {
				memo.making[a] = true
				return { op: 'begin', a }
			}
			up[a] = {}
			return { op: 'create', a }
		}
		const op = pick(r, ALL)
		// long histories that build up
		if (ks.length > 2 && ['clear', 'unroutes'].includes(op) && r() < 0.9) continue
		const e = { op, a }
		if (op === 'palette') {
			if (up[a].palette) continue
			up[a].palette = true
		}
		if (op === 'pref') Object.assign(e, { k: pick(r, ks), v: pick(r, [...vs, 'none']) })
		if (op === 'lang') e.l = pick(r, ls)
		if (['handler', 'connect', 'contrib', 'keyb', 'run'].includes(op)) e.c = pick(r, cs)
		if (['route', 'unroute', 'go'].includes(op)) e.r = pick(r, rs)
		return e
	}
}
const two = ['A', 'B']
const six = ['A', 'B', 'C', 'D', 'E', 'F', 'G']
const three = ['A', 'B', 'C']
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: deep ? 200 : 15, len: 40 }
		const part = (x, ks, rs, every, apps = two) => ({
			spec: 'JustPage',
			cfg: `JustPage_${x}`,
			driver: pageDriverOf(apps),
			concs: pageConcs.map(c => ({ ...c, ks, rs, cs: ['c1'], tourEvery: deep ? 1 : every })),
			tourLen: 60,
			walks
		})
		return [
			part('C16', ['k1', 'k2'], ['r1'], 1),
			part('C16b', ['k1'], ['r1'], 3),
			part('C16c', ['k1'], ['r1', 'r2'], 1),
			part('C16d', ['k1'], ['r1'], 3),
			{ ...part('C16e', ['k1'], ['r1'], 1, three), tourLen: 12 },
			...(deep ? [part('C16_deep', ['k1'], ['r1'], 1)] : []),
			{
				spec: 'JustPage',
				cfg: 'JustPage_C16',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B", "C"}', Cmds: '{"c1", "c2"}', Routes: '{"r1", "r2"}' },
				driver: pageDriverOf(three),
				concs: pageConcs.map(c => ({ ...c, ks: ['k1', 'k2'], rs: ['r1', 'r2'], cs: ['c1', 'c2'] })),
				trace: { n: deep ? 150 : 10, len: 120, cfgs: [{ n: 0 }], gen: gen(three) }
			},
			// more of everything
			{
				spec: 'JustPage',
				cfg: 'JustPage_C16',
				noExplore: true,
				traceConstants: { Apps: setOf(six), Keys: setOf(many.ks), Vals: setOf(many.vs), Langs: setOf(many.ls), Cmds: setOf(many.cs), Routes: setOf(many.rs) },
				driver: pageDriverOf(six),
				concs: pageConcs.map(c => ({ ...c, kinds: [...c.kinds, ...c.kinds, c.kinds[0]], names: [...c.names, 'e e', 'e-e', `${'long'.repeat(40)}1`, `${'long'.repeat(40)}2`], ks: many.ks, rs: many.rs, cs: many.cs })),
				trace: { n: deep ? 12 : 1, len: deep ? 600 : 250, cfgs: [{ n: 0 }], gen: gen(six, many) }
			}
		]
	},
	known: [
		{
			what: 'adding a key binding to one app with browser-keyboard drops the key bindings of the other apps on the page from the keyboard (browser-keyboard resets the Mousetrap of the page)',
			async run(world) {
				const dom = newDom()
				const m = world.freshBrowser(domEnv(dom))
				const ran = []
				const make = () => makeApp(m, { gizmos: [m.keyboard.keyboardGizmoFn(), m.commands.commandsGizmoFn(), m.os.osGizmo, m.browserKeyboard.browserKeyboardGizmo] })
				const A = await make()
				const B = await make()
				const add = (x, id, key) => m.commands.command({ id, key }, () => void ran.push(id)).connect(x)
				const press = k => {
					const e = new dom.window.KeyboardEvent('keydown', { bubbles: true, ctrlKey: true })
					const code = k.toUpperCase().charCodeAt(0)
					Object.defineProperty(e, 'which', { value: code })
					Object.defineProperty(e, 'keyCode', { value: code })
					dom.window.document.body.dispatchEvent(e)
				}
				add(A, 'a', 'ctrl+j')
				add(B, 'b', 'ctrl+k')
				press('j')
				press('k')
				dom.window.close()
				return ran.join() === 'b'
			}
		}
	]
}
