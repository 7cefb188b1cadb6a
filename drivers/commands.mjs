// Binds JustHandlers.tla, JustContrib.tla and JustCommand.tla to @just-web/commands and @just-web/keyboard.
import { argsConc, logTap, makeApp, pageLog } from './apps.mjs'

const A1 = { arg: 1 }
const symA = Symbol('arg')

export const handlersConcs = [
	{ name: 'plain', ids: { i1: 'a.b', i2: 'a.c', i3: 'a' }, args: [A1, 'text'], rets: [{ r: 1 }, 'r2'] },
	{ name: 'inherited', ids: { i1: 'constructor', i2: '__proto__', i3: 'toString' }, args: [null, 0], rets: [Promise.resolve(1), null] },
	{ name: 'odd', ids: { i1: '', i2: 'hasOwnProperty', i3: '@just-web/x y/ü' }, args: ['', false], rets: [0, undefined] },
	{ name: 'spaces', ids: { i1: ' a', i2: 'a', i3: 'A ' }, args: [[], {}], rets: [[1], {}] },
	{ name: 'like', ids: { i1: 'valueOf', i2: 'then', i3: 'length' }, args: [symA, () => 1], rets: [() => 1, false] }
]
const INHERITED = ['constructor', 'toString', '__proto__', 'hasOwnProperty', 'valueOf', 'isPrototypeOf', 'unknown']

export async function handlersDriver(world, conc, cfg) {
	const m = world.shared()
	const A = argsConc(...conc.args)
	let calls = []
	const boom = new Error('boom')
	const rets = { f1: conc.rets[0], f2: conc.rets[1], fR: symA, fC: { caught: true } }
	const NEXT = { i1: 'i2', i2: 'i3', i3: 'i1' }
	const FUEL = 5
	let fuel = FUEL
	let last
	let app
	let made = 0
	const fun = (i, f) =>
		// of any arity
		Object.defineProperty(body(i, f), 'length', { value: made++ % 4 })
	const body = (i, f) => {
		return (...args) => {
			calls.push({ f, args: A.abs(args) })
			last = f
			switch (f) {
				case 'fT':
					throw boom
				case 'fC':
					for (let n = 0; n < 2 && fuel > 0; n++) {
						fuel--
						try {
							h.invoke(conc.ids[NEXT[i] ?? 'i1'], ...args)
						} catch (x) {
							if (x !== boom) calls.push({ f: `other: ${x}`, args: [] })
						}
					}
					last = 'fC'
					return rets.fC
				case 'fR':
					h.register(conc.ids[i], fun(i, 'f1'))
					return rets.fR
				case 'fI': {
					if (fuel === 0) return STOP
					fuel--
					return h.invoke(conc.ids[NEXT[i] ?? 'i1'], ...args)
				}
			}
			return rets[f]
		}
	}
	const STOP = { stopped: true }
	const given = cfg.given.length % 2 ? {} : Object.create(null)
	for (const i of cfg.given) Object.defineProperty(given, conc.ids[i], { value: fun(i, 'f1'), enumerable: true, writable: true, configurable: true })
	app = await makeApp(m, { gizmos: [m.commands.commandsGizmoFn(cfg.given.length ? { handlers: given } : undefined)] })
	const h = app.commands.handlers
	const log = logTap(app)
	return {
		step(e) {
			calls = []
			fuel = FUEL
			log.skip()
			last = undefined
			if (e.op === 'register') {
				h.register(conc.ids[e.i], fun(e.i, e.f))
				return { calls, ret: '-', errors: log.count(m.app.logLevels.error) }
			}
			let ret
			try {
				const r = h.invoke(conc.ids[e.i], ...A.real(e.args))
				if (r === STOP) ret = 'stopped'
				else if (last && Object.hasOwn(rets, last) && Object.is(rets[last], r)) ret = last
				else ret = r === undefined ? 'undefined' : `?${String(r)}`
			} catch (x) {
				ret = x === boom ? 'threw' : `other: ${x}`
			}
			return { calls, ret, errors: log.count(m.app.logLevels.error) }
		},
		obs() {
			const abs = id => Object.keys(conc.ids).find(i => conc.ids[i] === id) ?? `?${String(id)}`
			return {
				keys: h.keys().map(abs),
				has: Object.fromEntries(Object.keys(conc.ids).map(i => [i, h.has(conc.ids[i])])),
				alien: INHERITED.filter(k => !Object.values(conc.ids).includes(k) && h.has(k))
			}
		}
	}
}

export const contribConcs = [
	{ name: 'plain', ids: { i1: 'a.b', i2: 'a.c', i3: 'a' } },
	{ name: 'inherited', ids: { i1: 'constructor', i2: '__proto__', i3: 'toString' } },
	{ name: 'odd', ids: { i1: '', i2: 'hasOwnProperty', i3: 'keys' } },
	{ name: 'spaces', ids: { i1: ' a', i2: 'a', i3: 'A' } }
]

export async function contribDriver(world, conc, cfg) {
	const m = world.shared()
	const idOf = i => conc.ids[i]
	const real = {
		cmd: { c1: i => ({ id: idOf(i), title: 'one' }), c2: i => ({ id: idOf(i), commandPalette: false, description: '' }) },
		key: { c1: i => ({ id: idOf(i), key: 'ctrl+a' }), c2: i => ({ id: idOf(i), mac: 'cmd+b' }) }
	}
	const mk = (reg, e) => real[reg][e.c](e.i)
	const cache = {}
	const same = (x, y) => {
		if (!x || !y || typeof x !== 'object') return false
		const ks = Object.keys(x)
		return ks.length === Object.keys(y).length && ks.every(k => Object.hasOwn(y, k) && x[k] === y[k])
	}
	const abs = reg => (k, c) => {
		const i = Object.keys(conc.ids).find(x => conc.ids[x] === k) ?? `?${String(k)}`
		const v = ['c1', 'c2'].find(x => conc.ids[i] !== undefined && same((cache[reg + x + i] ??= real[reg][x](i)), c)) ?? `?${JSON.stringify(c)}`
		return { i, c: v }
	}
	const content = (reg, r) => Reflect.ownKeys(r).map(k => abs(reg)(k, r[k]))
	const opts = reg => (cfg[reg].length ? cfg[reg].map(e => mk(reg, e)) : undefined)
	const app = await makeApp(m, {
		gizmos: [
			m.keyboard.keyboardGizmoFn(opts('key') && { keyBindingContributions: opts('key') }),
			m.commands.commandsGizmoFn(opts('cmd') && { contributions: opts('cmd') })
		]
	})
	const regs = { cmd: app.commands.contributions, key: app.keyboard.keyBindingContributions }
	const log = logTap(app)
	let ev = []
	for (const reg of ['cmd', 'key']) regs[reg].onChange((n, o) => ev.push({ reg, n: content(reg, n), o: content(reg, o) }))
	const { logLevels } = m.app
	if (cfg.fol !== 'off')
		for (const reg of ['cmd', 'key']) {
			const to = cfg.fol === 'same' ? reg : reg === 'cmd' ? 'key' : 'cmd'
			regs[reg].onChange((n, o) => {
				if (Object.hasOwn(n, idOf('i1')) && !Object.hasOwn(o, idOf('i1'))) regs[to].add(mk(to, { i: 'i2', c: 'c2' }), mk(to, { i: 'i1', c: 'c2' }))
			})
		}
	return {
		step(e) {
			ev = []
			log.skip()
			const r = regs[e.reg]
			if (e.op === 'add') r.add(...e.es.map(x => mk(e.reg, x)))
			else if (e.op === 'reset') r.reset()
			else
				r.set(x => {
					if (Object.hasOwn(x, idOf(e.i))) delete x[idOf(e.i)]
				})
			const logs = log.take()
			return { ev, logs: { error: logs.filter(l => l.level === logLevels.error).length, warn: logs.filter(l => l.level === logLevels.warn).length } }
		},
		obs() {
			const out = {}
			for (const reg of ['cmd', 'key']) {
				const xs = content(reg, regs[reg].get())
				// the queries say the same
				const ks = regs[reg].keys()
				const vs = regs[reg].values()
				const ys = ks.map((k, i) => abs(reg)(k, vs[i]))
				out[reg] = JSON.stringify(xs) === JSON.stringify(ys) && ks.every(k => regs[reg].has(k)) ? xs : { content: xs, queries: ys }
			}
			return out
		}
	}
}

export const commandConcs = [
	{ name: 'plain', ids: { c1: 'ns.doIt', c2: 'ns.doItLocally' }, args: [A1, 'x'], keys: { key: 'ctrl+a', mac: 'cmd+a' }, sep: 'camel', title: 't' },
	{ name: 'inherited', ids: { c1: 'constructor', c2: '__proto__' }, args: [0, null], keys: { key: 'k', mac: 'command+k' }, sep: 'kebab', title: 'some title.withDots' },
	{ name: 'odd', ids: { c1: 'a.b.c', c2: 'nodot' }, args: ['', undefined], keys: { key: 'f1', mac: 'x' }, sep: 'snake', title: '' },
	{ name: 'both', ids: { c1: ' a.b', c2: '@a/b c ' }, args: [symA, false], keys: { key: 'ctrl+a', mac: 'cmd+a' }, both: true, sep: 'space', title: ' A  B ' }
]

const join = {
	camel: ws => ws.map((w, i) => (i ? w[0].toUpperCase() + w.slice(1) : w)).join(''),
	kebab: ws => ws.join('-'),
	snake: ws => ws.join('_'),
	space: ws => ws.join(' ')
}

/** decl: how each command is declared; kbd: which apps have a keyboard */
export const commandDriverOf = (decl, kbd) => async (world, conc, cfg) => {
	const m = world.shared()
	const { command, formatCommand, commandsGizmoFn } = m.commands
	const args = conc.args[1] === undefined ? ['b0', 'b1'] : conc.args
	const A = argsConc(...args)
	const page = logTap(await pageLog(m))
	let calls = []
	let formats = 0
	const boom = new Error('boom')
	const rets = { f1: { ret: 1 }, f2: Promise.resolve(2), fA: 0, fB: '', fD: null, fR: symA, fN: false }
	let fuel = 2
	let last
	const NEXT = { c1: decl.c2 ? 'c2' : 'c1', c2: decl.c3 ? 'c3' : 'c1' }
	const made = {}
	const fun = (c, f) =>
		(made[c + f] ??= (...xs) => {
			calls.push({ f, args: A.abs(xs) })
			last = f
			switch (f) {
				case 'fT':
					throw boom
				case 'fA':
				case 'fB':
					cmds[c].connect(apps[f[1]])
					break
				case 'fD':
					cmds[c].defineHandler(fun(c, 'f2'))
					break
				case 'fR':
					apps.A.commands.handlers.register(conc.ids[c], fun(c, 'f1'))
					break
				case 'fN':
					if (fuel === 0) break
					fuel--
					last = undefined
					return cmds[NEXT[c] ?? 'c1'](...xs)
			}
			return rets[f]
		})
	const apps = {}
	const taps = {}
	const noErrors = Object.fromEntries(Object.keys(kbd).map(a => [a, 0]))
	for (const a of Object.keys(kbd)) {
		apps[a] = await makeApp(m, { gizmos: kbd[a] ? [m.keyboard.keyboardGizmoFn(), commandsGizmoFn()] : [commandsGizmoFn()] })
		taps[a] = logTap(apps[a])
	}
	const infos = {}
	const cmds = {}
	for (const c of Object.keys(decl)) {
		const id = conc.ids[c]
		const own = cfg.given.includes(c) ? [fun(c, 'f1')] : []
		if (decl[c] === 'id') cmds[c] = command(id, ...own)
		else {
			const info = { id, title: `title of ${c}`, commandPalette: false }
			if (decl[c] === 'key' || (conc.both && decl[c] === 'mac')) info.key = conc.keys.key
			if (decl[c] === 'mac') info.mac = conc.keys.mac
			infos[c] = info
			cmds[c] = command({ ...info }, ...own)
		}
	}
	const sig = c => JSON.stringify(c && Object.entries(c).sort())
	return {
		step(e) {
			calls = []
			const none = { calls, ret: '-', errors: noErrors, page: 0 }
			switch (e.op) {
				case 'call': {
					page.skip()
					for (const a in taps) taps[a].skip()
					let ret
					fuel = 2
					last = undefined
					try {
						const r = cmds[e.c](...A.real(e.args))
						ret = last && Object.is(rets[last], r) ? last : r === undefined ? 'undefined' : `?${String(r)}`
					} catch (x) {
						ret = x === boom ? 'threw' : `other: ${x}`
					}
					const errors = {}
					for (const a in taps) errors[a] = taps[a].count(m.app.logLevels.error)
					return { calls, ret, errors, page: page.count(m.app.logLevels.error) }
				}
				case 'define': {
					const r = cmds[e.c].defineHandler(fun(e.c, e.f))
					return r === fun(e.c, e.f) ? none : { ...none, ret: 'not the handler' }
				}
				case 'connect':
					if (e.f === 'none') cmds[e.c].connect(apps[e.a])
					else cmds[e.c].connect(apps[e.a], fun(e.c, e.f))
					return none
				case 'register':
					apps[e.a].commands.handlers.register(conc.ids[e.c], fun(e.c, e.f))
					return none
				case 'format': {
					const id = e.segs.map(join[conc.sep]).join('.')
					const given = { id, description: 'described', key: 'ctrl+x' }
					const own = e.own === 't' ? conc.title : e.own
					if (e.own !== 'none') given.title = own
					else if (formats++ % 2) given.title = undefined
					const r = formatCommand(given)
					if (r.id !== id || r.description !== 'described') return `?${JSON.stringify(r)}`
					if (r.title === own) return { own: true, words: [e.own] }
					const words = String(r.title).split(' ')
					// a sentence starts with a capital, and has no other
					const cased = words.every((w, i) => w === (i ? w.toLowerCase() : w[0].toUpperCase() + w.slice(1).toLowerCase()))
					return { own: false, words: cased ? words.map(w => w.toLowerCase()) : [r.title] }
				}
			}
		},
		obs() {
			const per = f => Object.fromEntries(Object.keys(apps).map(a => [a, Object.fromEntries(Object.keys(cmds).map(c => [c, f(apps[a], c, a)]))]))
			const inReg = (r, c) => {
				const id = conc.ids[c]
				if (!r?.has(id)) return false
				if (sig(r.get()[id]) === sig(infos[c])) return true
				return `?${sig(r.get()[id])}`
			}
			const stray = (r, c, got) => (got === false && r && Object.values(r.get()).some(x => x.id === conc.ids[c]) ? 'stray' : got)
			return {
				has: per((app, c) => app.commands.handlers.has(conc.ids[c])),
				con: per((app, c) => stray(app.commands.contributions, c, inReg(app.commands.contributions, c))),
				kbc: per((app, c) => stray(app.keyboard?.keyBindingContributions, c, inReg(app.keyboard?.keyBindingContributions, c))),
				named: Object.fromEntries(Object.keys(cmds).map(c => [c, cmds[c].name === conc.ids[c] && cmds[c].id === conc.ids[c]]))
			}
		}
	}
}
