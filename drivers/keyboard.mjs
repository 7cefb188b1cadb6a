// Binds JustKeyboard.tla to browserKeyboardGizmo, pressing keys as DOM events of a page.
import { domEnv, newDom } from '../lib/bundle.mjs'
import { more, range } from '../lib/wide.mjs'
import { logTap, makeApp } from './apps.mjs'

export const UA = {
	mac: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	win: 'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36'
}

// a key is how it may be written, and the strokes that press it
export const keyboardConcs = [
	{
		name: 'ctrl',
		ids: { i1: 'a.b', i2: 'a.c', i3: 'a' },
		keys: {
			k1: { names: ['ctrl+j'], strokes: ['ctrl+j'] },
			k2: { names: ['esc', 'escape'], strokes: ['esc'] },
			k3: { names: ['j'], strokes: ['j'] }
		}
	},
	{
		name: 'spelling',
		ids: { i1: 'constructor', i2: '__proto__', i3: 'toString' },
		keys: {
			k1: { names: ['cmd+j', 'command+j', 'meta+j'], strokes: ['meta+j'] },
			k2: { names: ['ctrl+shift+k', 'shift+ctrl+k'], strokes: ['ctrl+shift+k'] },
			k3: { names: ['f1'], strokes: ['f1'] }
		}
	},
	{
		name: 'sequence',
		ids: { i1: '', i2: 'x y', i3: 'just-web.showCommandPalette' },
		keys: {
			k1: { names: ['g i'], strokes: ['g', 'i'] },
			k2: { names: ['alt+x', 'option+x'], strokes: ['alt+x'] },
			k3: { names: ['enter', 'return'], strokes: ['enter'] }
		}
	},
	{
		name: 'overlap',
		ids: { i1: 'hasOwnProperty', i2: 'keys', i3: '0x' },
		keys: {
			k1: { names: ['k'], strokes: ['k'] },
			k2: { names: ['shift+k'], strokes: ['shift+k'] },
			k3: { names: ['cmd+shift+k', 'shift+cmd+k', 'command+shift+k'], strokes: ['meta+shift+k'] }
		}
	},
	{
		name: 'case',
		ids: { i1: 'a.b', i2: 'A.B', i3: ' a.b' },
		keys: {
			k1: { names: ['G'], strokes: ['shift+g'] },
			k2: { names: ['g'], strokes: ['g'] },
			k3: { names: ['ctrl+g'], strokes: ['ctrl+g'] }
		}
	},
	{
		name: 'chords',
		ids: { i1: 'a.b', i2: 'a.b.c', i3: 'b' },
		keys: {
			k1: { names: ['cmd+k cmd+s', 'command+k meta+s', 'meta+k cmd+s'], strokes: ['meta+k', 'meta+s'] },
			k2: { names: ['ctrl+shift+k alt+s', 'shift+ctrl+k option+s'], strokes: ['ctrl+shift+k', 'alt+s'] },
			k3: { names: ['s k'], strokes: ['s', 'k'] }
		}
	},
	{
		// the platform is what the app says, not the page
		name: 'testOs',
		testOs: true,
		ids: { i1: 'valueOf', i2: 'a.b', i3: 'b.a' },
		keys: {
			k1: { names: ['cmd+s', 'command+s'], strokes: ['meta+s'] },
			k2: { names: ['ctrl+s'], strokes: ['ctrl+s'] },
			k3: { names: ['s'], strokes: ['s'] }
		}
	}
]

const key = (...names) => ({ names, strokes: [names[0]] })
/** many keys, none of which is another one */
export const keyboardWide = () =>
	[
		{
			name: 'wide',
			keys: { k1: key('a'), k2: key('b'), k3: key('ctrl+a'), k4: key('shift+b'), k5: key('f12'), k6: key('esc', 'escape'), k7: key('ctrl+space'), k8: key('ctrl+alt+shift+a', 'shift+option+ctrl+a'), k9: key('up'), k10: key('alt+b', 'option+b') }
		},
		{
			name: 'wideMeta',
			testOs: true,
			keys: { k1: key('meta+a', 'cmd+a', 'command+a'), k2: key('0'), k3: key('meta+shift+a', 'shift+cmd+a'), k4: key('ctrl+meta+a', 'cmd+ctrl+a', 'ctrl+command+a'), k5: key('tab'), k6: key('shift+tab'), k7: key('del'), k8: key('backspace'), k9: key('left'), k10: key('meta+left', 'command+left') }
		}
	].map((c, n) => ({ ...c, ids: more(keyboardConcs[n].ids, 'i', 12), handled: range('i', 9) }))

/** time passes when told to */
function clock() {
	let now = 0
	let n = 0
	const timers = new Map()
	return {
		setTimeout: (f, ms = 0) => (timers.set(++n, { f, at: now + ms }), n),
		clearTimeout: t => void timers.delete(t),
		pass(ms) {
			now += ms
			for (const [t, x] of timers)
				if (x.at <= now) {
					timers.delete(t)
					x.f()
				}
		}
	}
}

const CODES = { f1: 112, f12: 123, enter: 13, space: 32, tab: 9, esc: 27, up: 38, left: 37, del: 46, backspace: 8 }

export function stroke(window, target, s) {
	const parts = s.split('+')
	const k = parts.pop()
	const mods = { ctrlKey: parts.includes('ctrl'), shiftKey: parts.includes('shift'), altKey: parts.includes('alt'), metaKey: parts.includes('meta') }
	const send = (type, which) => {
		const e = new window.KeyboardEvent(type, { bubbles: true, cancelable: true, key: k, ...mods })
		Object.defineProperty(e, 'which', { value: which })
		Object.defineProperty(e, 'keyCode', { value: which })
		target.dispatchEvent(e)
		return e.defaultPrevented
	}
	const code = CODES[k] ?? k.toUpperCase().charCodeAt(0)
	const text = k.length === 1 && !mods.ctrlKey && !mods.metaKey && !mods.altKey
	let prevented = send('keydown', code)
	// the browser sends no keypress for a key whose default action was prevented
	if (!prevented && text) prevented = send('keypress', (mods.shiftKey ? k.toUpperCase() : k).charCodeAt(0)) || prevented
	send('keyup', code)
	return prevented
}

export async function keyboardDriver(world, conc, cfg) {
	const os = cfg.mac === !conc.testOs ? 'mac' : 'win'
	const page = ((world.cached.keyboard ??= {})[os] ??= (() => {
		const dom = newDom({ userAgent: UA[os] })
		const time = clock()
		return { dom, time, m: world.freshBrowser(domEnv(dom, { setTimeout: time.setTimeout, clearTimeout: time.clearTimeout })) }
	})())
	const { dom, m, time } = page
	let spelled = 0
	const keyOf = k => {
		const { names } = conc.keys[k]
		return names[spelled++ % names.length]
	}
	const contribution = ({ i, key, mac }) => {
		const c = { id: conc.ids[i] }
		if (key !== 'none') c.key = keyOf(key)
		if (mac !== 'none') c.mac = keyOf(mac)
		return c
	}
	const app = await makeApp(m, {
		gizmos: [
			m.keyboard.keyboardGizmoFn(cfg.given.length ? { keyBindingContributions: cfg.given.map(contribution) } : undefined),
			m.commands.commandsGizmoFn(),
			conc.testOs ? m.osTesting.osTestGizmoFn({ isMac: () => cfg.mac }) : m.os.osGizmo,
			m.browserKeyboard.browserKeyboardGizmo
		]
	})
	let calls = []
	const reg = app.keyboard.keyBindingContributions
	const { logLevels } = m.app
	const log = logTap(app)
	const warned = logs => logs.filter(l => l.level === logLevels.warn && l.id.endsWith('@just-web/browser-keyboard')).length
	const change = f => {
		log.skip()
		f()
		return { calls, warned: warned(log.take()) }
	}
	const eq = (a, b) => a === b || Object.values(conc.keys).some(x => x.names.includes(a) && x.names.includes(b))
	const replace = c => {
		// the same contribution is no change
		const old = reg.get()[c.id]
		reg.set(r => {
			if (!eq(old.key, c.key) || !eq(old.mac, c.mac)) r[c.id] = c
		})
	}
	const remove = id =>
		reg.set(r => {
			delete r[id]
		})
	const beh = {}
	const acts = {
		throw() {
			throw new Error('a handler fails')
		},
		drop: i => remove(conc.ids[i]),
		add: () => reg.add(contribution({ i: 'i3', key: 'k1', mac: 'none' })),
		move: i => replace(contribution({ i, key: 'k2', mac: 'none' }))
	}
	for (const i of conc.handled ?? ['i1', 'i2'])
		app.commands.handlers.register(conc.ids[i], (...args) => {
			calls.push({ i, args: args.length })
			acts[beh[i]]?.(i)
		})
	return {
		step(e) {
			calls = []
			const id = e.i && conc.ids[e.i]
			switch (e.op) {
				case 'press': {
					log.skip()
					let prevented = false
					for (const s of conc.keys[e.k].strokes) {
						prevented = stroke(dom.window, dom.window.document.body, s)
						time.pass(20)
					}
					time.pass(5000)
					const logs = log.take()
					return { calls, prevented, errors: logs.filter(l => l.level === logLevels.error).length, warned: warned(logs) }
				}
				case 'add':
					return change(() => reg.add(contribution({ ...e })))
				case 'replace':
					return change(() => replace(contribution(e)))
				case 'remove':
					return change(() => remove(id))
				case 'handle':
					return change(() => (beh[e.i] = e.b))
				case 'clear':
					return change(() => reg.set(Object.create(null)))
				case 'reset':
					return change(() => reg.reset())
			}
		},
		obs() {
			const abs = k => Object.keys(conc.ids).find(i => conc.ids[i] === k) ?? `?${k}`
			return { ids: reg.keys().map(abs) }
		},
		has: i => reg.has(conc.ids[i]),
		close() {
			reg.set(Object.create(null))
		}
	}
}
