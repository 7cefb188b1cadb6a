// Binds JustTracking.tla to the commands of two apps, one of which has the browser keyboard.
import { createAll } from './apps.mjs'
import { domEnv, newDom } from '../lib/bundle.mjs'
import { stroke, UA } from './keyboard.mjs'

export const trackingConcs = [
	{ name: 'plain', ids: { i1: 'a.b', i2: 'a.c' }, names: { A: 'app', B: 'app2' }, args: ['x', 1] },
	{ name: 'names', together: true, ids: { i1: 'constructor', i2: '' }, names: { A: 'one', B: 'one:x' }, args: [] },
	{ name: 'prefix', ids: { i1: 'a', i2: 'a.a' }, names: { A: '@just-web/commands', B: 'x' }, args: [undefined] }
]
const numbers = { error: 400, notice: 600, info: 700, trace: 900 }
const keys = { i1: 'ctrl+1', i2: 'f1', i3: 'a', i4: 'ctrl+alt+b', i5: 'esc', i6: 'c', i7: 'ctrl+d', i8: 'alt+e', i9: 'f', i10: 'ctrl+g' }

export const trackingDriverOf = apps => (world, conc, cfg) => trackingDriver(world, conc, cfg, apps)
async function trackingDriver(world, conc, cfg, apps) {
	const page = (world.cached.tracking ??= (() => {
		const dom = newDom({ userAgent: UA.win })
		return { dom, m: world.freshBrowser(domEnv(dom)) }
	})())
	const { dom, m } = page
	let ev = []
	const A = {}
	const { ids } = conc
	const idOf = x => Object.keys(ids).find(i => ids[i] === x) ?? `?${x}`
	const builders = {}
	for (const a of apps) {
		const id = `${conc.names[a]}:@just-web/commands`
		const write = e => {
			if (e.id !== id) return
			const s = e.args.map(String)
			// an error or a notice says which command it is about
			const about = l => {
				if (e.level !== l) return `?${s}`
				// the longest id it names, between quotes if possible
				const longest = f => Object.keys(ids).filter(i => f(ids[i])).sort((x, y) => ids[y].length - ids[x].length)[0]
				const quoted = id => ["'", '"', '`'].some(q => s[0].includes(q + id + q))
				return longest(quoted) ?? longest(id => s[0].includes(id)) ?? `?${s}`
			}
			if (e.level === numbers.trace) {
				const k = s[0] === 'invoke' || s[0] === 'register' ? s[0] : `?${s[0]}`
				ev.push({ a, k, i: s.length === 2 ? idOf(e.args[1]) : `?${s}` })
			} else if (e.level === numbers.error) ev.push({ a, k: 'unknown', i: about(numbers.error) })
			else if (e.level === numbers.notice) ev.push({ a, k: 'replaced', i: about(numbers.notice) })
			// what is logged at debug level says more about the same
			else if (e.level !== m.app.logLevels.debug) ev.push({ a, k: `?${e.level}`, i: s.join() })
		}
		let b = m.app
			.justApp({ name: conc.names[a], log: { logLevel: numbers[cfg[a]], reporters: [{ id: 'r', write }] } })
			.with(m.commands.commandsGizmoFn())
		if (a === 'A')
			b = b
				.with(m.keyboard.keyboardGizmoFn({ keyBindingContributions: Object.keys(ids).map(i => ({ id: ids[i], key: keys[i] })) }))
				.with(m.os.osGizmo)
				.with(m.browserKeyboard.browserKeyboardGizmo)
		builders[a] = b
	}
	Object.assign(A, await createAll(builders, conc.together))
	const boom = new Error('boom')
	const handler = (a, i, f) => (...args) => {
		ev.push({ a, k: 'call', i: args.length === 0 || args.every((x, n) => Object.is(x, conc.args[n])) ? i : `?${args}` })
		if (f === 'throw') throw boom
		if (f === 'nest') return A[a].commands.handlers.invoke(ids.i2)
		return 'done'
	}
	const cmds = Object.fromEntries(Object.keys(ids).map(i => [i, m.commands.command(ids[i])]))
	const run = f => {
		try {
			f()
			return { ev, ret: 'returned' }
		} catch (e) {
			return { ev, ret: e === boom ? 'threw' : `?${e}` }
		}
	}
	// either may be logged first
	const byKind = (x, y) => (x.k < y.k ? -1 : x.k > y.k ? 1 : 0)
	return {
		step(e) {
			ev = []
			switch (e.op) {
				case 'register':
					A[e.a].commands.handlers.register(ids[e.i], handler(e.a, e.i, e.f))
					return { ev: ev.sort(byKind), ret: '-' }
				case 'connect':
					cmds[e.i].connect(A[e.a], handler(e.a, e.i, e.f))
					return { ev: ev.sort(byKind), ret: '-' }
				case 'invoke':
					return run(() => A[e.a].commands.handlers.invoke(ids[e.i], ...conc.args))
				case 'call':
					return run(() => cmds[e.i](...conc.args))
				case 'press':
					stroke(dom.window, dom.window.document.body, keys[e.i])
					return { ev, ret: '-' }
			}
		},
		obs() {
			return Object.fromEntries(apps.map(a => [a, Object.fromEntries(Object.keys(ids).map(i => [i, A[a].commands.handlers.has(ids[i])]))]))
		},
		close() {
			A.A.keyboard.keyBindingContributions.set(Object.create(null))
		}
	}
}
