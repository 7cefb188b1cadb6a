// Binds JustLog.tla to the logs of justApp(), justTestApp() and the loggers made from them.
import { amid } from './apps.mjs'
const args = { some: ['text', { a: 1 }], none: [], odd: [undefined, null, new Error('logged'), '%s %o'] }

const writer = (id, extra) => {
	const logs = []
	return { id, ...extra, logs, write: e => void logs.push(e) }
}
const all = (m, level) => ({ logLevel: level, customLevels: { loud: 350, quiet: 850, custom: 650 } })
// base gives what creates app a, and where its entries are found
export const logConcs = [
	{
		name: 'own',
		names: { A: 'app', B: 'app2', C: 'third app' },
		ids: { p: 'pre', i: 'x', j: 'y' },
		args: args.some,
		base(m, name, level) {
			const mem = writer('mem')
			const con = writer('con', { isConsoleReporter: true })
			return { builder: m.app.justApp({ name, log: { ...all(m, level), reporters: [mem, con] } }), mem: () => mem.logs, con: () => con.logs }
		}
	},
	{
		name: 'standard',
		names: { A: 'a', B: 'a:x', C: 'third app' },
		ids: { p: 'b', i: 'a', j: 'constructor' },
		args: args.none,
		base(m, name, level, printed) {
			const mem = m.app.createMemoryLogReporter({ id: 'm' })
			printed.length = 0
			const con = m.app.createConsoleLogReporter()
			const seen = []
			return {
				builder: m.app.justApp({
					name,
					log: {
						...all(m, level),
						reporters: [
							con,
							mem,
							{
								id: 'after',
								isConsoleReporter: true,
								// after what the console reporter printed
								write(e) {
									if (printed.length === 1) seen.push(e)
									else seen.push({ ...e, id: `printed ${printed.length} times` })
									printed.length = 0
								}
							}
						]
					}
				}),
				mem: () => mem.logs,
				con: () => seen
			}
		}
	},
	{
		name: 'test',
		names: { A: 'test', B: 'ü b', C: 'third app' },
		ids: { p: '@just-web/p', i: 'toString', j: '__proto__' },
		args: args.odd,
		base(m, name, level) {
			const con = writer('con', { isConsoleReporter: true })
			return {
				builder: m.appTesting.justTestApp({ name, log: { ...all(m, level), reporters: [con] } }),
				mem: app => app.log.reporter.logs,
				con: () => con.logs
			}
		}
	},
	{
		name: 'testOptions',
		names: { A: 'one', B: 'two', C: 'third app' },
		ids: { p: 'one', i: 'two', j: 'ones' },
		args: args.some,
		// one options object for every app
		accepts: cfg => cfg.A === cfg.B && (cfg.C ?? cfg.A) === cfg.A,
		base(m, name, level, _printed, shared) {
			shared.log ??= { ...all(m, level) }
			return { builder: m.appTesting.justTestApp({ name, log: shared.log }), mem: app => app.log.reporter.logs }
		}
	},
	{
		name: 'testReporters',
		names: { A: 'one', B: 'one:x', C: 'third app' },
		ids: { p: 'one', i: 'one.x', j: 'o' },
		args: args.odd,
		// one list of reporters for every app
		accepts: cfg => cfg.A === cfg.B && (cfg.C ?? cfg.A) === cfg.A,
		base(m, name, level, _printed, shared) {
			shared.log ??= { ...all(m, level), reporters: [] }
			return { builder: m.appTesting.justTestApp({ name, log: shared.log }), mem: app => app.log.reporter.logs }
		}
	},
	{
		name: 'sanitized',
		names: { A: 'what?', B: 'a b', C: 'third app' },
		ids: { p: 'x+y', i: '#1', j: 'q=r' },
		args: args.some,
		base(m, name, level) {
			const mem = writer('memory', { getLogMessages() {} })
			const con = writer('z', { isConsoleReporter: true })
			return { builder: m.appTesting.justTestApp({ name, log: { ...all(m, level), reporters: [mem, con] } }), mem: () => mem.logs, con: () => con.logs }
		}
	}
]

const numbers = { none: 0, critical: 300, error: 400, warn: 500, notice: 600, custom: 650, info: 700, debug: 800, trace: 900, planck: Infinity }
// characters standard-log does not take
const clean = id => id.replace(/[`~!#$%^&*()=+[\]{},|<>?]/g, '-')

export async function logDriver(world, conc, cfg, apps) {
	const cache = (world.cached.logWithConsole ??= withConsole(world))
	const { m, printed } = cache
	const A = {}
	const shared = {}
	let flip = 0
	const idOf = (a, k) =>
		k
			.split(':')
			.map(x => (x === 'N' ? conc.names[a] : conc.ids[x]))
			.join(':')
	const KEYS = conc.keys ?? ['N', 'N:i', 'N:j', 'N:p', 'N:p:i', 'N:p:j']
	const take = a => {
		const x = A[a]
		if (!x) return { mem: [], con: [] }
		const abs = e => {
			const k = KEYS.find(k => clean(idOf(a, k)) === e.id) ?? `?${e.id}`
			const mth = Object.keys(numbers).find(n => numbers[n] === e.level) ?? `?${e.level}`
			const same = xs => xs.length === e.args.length && xs.every((v, i) => Object.is(v, e.args[i]))
			const what = same(conc.args)
				? 'args'
				: same(['returned'])
					? 'returned'
					: e.args[0] === `created (id: ${x.app.id})` && e.args.length === 1
						? 'created'
						: e.args[1] === 'more' && e.args.length === 2
							? `count${e.args[0]}`
							: `?${e.args.map(String)}`
			return { id: k, m: mth, what: e.timestamp instanceof Date ? what : 'no time' }
		}
		const mem = x.mem(x.app).slice(x.m).map(abs)
		x.m = x.mem(x.app).length
		const con = x.con ? x.con().slice(x.c).map(abs) : undefined
		x.c = x.con?.().length
		return { mem, con }
	}
	// nc: whether what was logged is not for a console
	const outs = (on, nc) => {
		const out = {}
		for (const a of apps) {
			const t = take(a)
			out[a] = { mem: t.mem, con: t.con ?? (a === on && nc ? [] : t.mem) }
		}
		return out
	}
	// what the log tells of its levels
	const level = ({ name, log }, expected) => {
		if (name !== expected) return `?${name}`
		const strange = Object.keys(numbers).filter(k => k !== 'none' && (log.toLogLevel(k) !== numbers[k] || log.toLogLevelName(numbers[k]) !== k))
		return strange.length ? `?${strange}` : Object.keys(numbers).find(k => numbers[k] === log.logLevel) ?? `?${log.logLevel}`
	}
	const loggers = {}
	// asks for a logger in one of the ways it can be asked for
	const get = (a, k, nc, l) => {
		const { app } = A[a]
		const options = l === undefined || l === 'app' ? (flip++ % 2 ? {} : undefined) : { level: numbers[l] }
		const [, x, y] = k.split(':')
		const ids = conc.ids
		const way = flip++ % 2
		if (nc) {
			const prefixed = m.app.createPrefixedGetNonConsoleLogger(app, ids.p)
			if (x === 'p' && (way || !y)) return prefixed(y ? ids[y] : '', options)
			return app.log.getNonConsoleLogger(y ? `${ids[x]}:${ids[y]}` : ids[x], options)
		}
		if (k === 'N') return way ? app.log.getLogger() : app.log.getLogger('')
		const prefixed = m.app.createPrefixedGetLogger(app, ids.p)
		if (x === 'p' && (way || !y)) return prefixed(y ? ids[y] : '', options)
		return app.log.getLogger(y ? `${ids[x]}:${ids[y]}` : ids[x], options)
	}
	const loggerOf = e => {
		if (e.k === 'N' && !e.nc && flip++ % 3) return A[e.a].app.log
		// the one that was given before, or the one that is given now
		return flip++ % 2 ? loggers[`${e.a}${e.k}${e.nc}`] ?? get(e.a, e.k, e.nc) : get(e.a, e.k, e.nc)
	}
	return {
		async step(e) {
			switch (e.op) {
				case 'create': {
					const x = conc.base(m, conc.names[e.a], cfg[e.a] === 'debug' && conc.name === 'test' ? undefined : numbers[cfg[e.a]], printed, shared)
					const app = await amid(x.builder, m.app.justApp({ name: 'other', log: { logLevel: 0, reporters: [] } }), m.appTesting.justTestApp({ name: 'else', log: { logLevel: 0 } }))
					A[e.a] = { ...x, app, m: 0, c: 0 }
					return outs(e.a, false)
				}
				case 'get':
					loggers[`${e.a}${e.k}${e.nc}`] = get(e.a, e.k, e.nc, e.l)
					return outs(e.a, e.nc)
				case 'level':
					loggerOf(e).level = e.l === 'app' ? undefined : numbers[e.l]
					return outs(e.a, e.nc)
				case 'log': {
					const log = loggerOf(e)
					const f = log[e.m]
					if (log === A[e.a].app.log) f(...conc.args)
					else log[e.m](...conc.args)
					return outs(e.a, e.nc)
				}
				case 'on': {
					const f = loggerOf(e)
					const level = flip++ % 2 ? e.m : numbers[e.m]
					f.on(level, log => {
						log(...conc.args)
						return 'returned'
					})
					return outs(e.a, e.nc)
				}
				case 'count':
					loggerOf(e).count('more')
					return outs(e.a, e.nc)
			}
		},
		obs() {
			return Object.fromEntries(apps.map(a => [a, A[a] ? level(A[a].app, conc.names[a]) : 'no']))
		}
	}
}
export const logDriverOf = apps => (world, conc, cfg) => logDriver(world, conc, cfg, apps)

function withConsole(world) {
	const printed = []
	const say = (...args) => printed.push(args)
	const console = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace', 'group', 'groupEnd', 'clear'].map(k => [k, say]))
	return { m: world.fresh({ console }), printed }
}
