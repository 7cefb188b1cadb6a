// Binds JustApp.tla to justApp() and justTestApp().
import { drain, ticks } from '../lib/harness.mjs'

const memory = m => m.app.createMemoryLogReporter()
export const appConcs = [
	{
		name: 'memory',
		base(m) {
			const reporter = memory(m)
			return { name: 'my-app', builder: m.app.justApp({ name: 'my-app', log: { reporters: [reporter] } }), logs: reporter.logs }
		}
	},
	// writes to the console
	{ name: 'console', base: m => ({ name: 'a:b c', builder: m.app.justApp({ name: 'a:b c' })}) },
	{ name: 'test', test: true, base: m => ({ name: 'test', builder: m.appTesting.justTestApp()}) },
	{
		name: 'testNamed',
		test: true,
		base(m) {
			const reporter = memory(m)
			return { name: 'ü', builder: m.appTesting.justTestApp({ name: 'ü', log: { reporters: [reporter], logLevel: m.app.logLevels.info } }), logs: reporter.logs }
		}
	},
	{ name: 'chained', chain: true, base: m => ({ name: 'chained', builder: m.app.justApp({ name: 'chained', log: { logLevel: m.app.logLevels.trace } })}) }
]

const noLogs = [undefined, {}, { info: 'no function' }, null]

function withConsole(world) {
	const printed = []
	const say = (...args) => printed.push(args)
	const console = Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace', 'group', 'groupEnd', 'clear'].map(k => [k, say]))
	return { m: world.fresh({ console }), printed }
}

export async function appDriver(world, conc) {
	const { m, printed } = (world.cached.appWithConsole ??= withConsole(world))
	printed.length = 0
	const { name, builder: first, logs } = conc.base(m)
	let builder = first
	const own = []
	let ev = []
	const runs = []
	let current
	const ids = new Set()
	let nl = 0
	// which creation a context belongs to
	const runOf = new Map()
	const runOfId = new Map()
	// creations that have not been heard of, in the order they were started
	const unheard = []
	const kOf = ctx => {
		if (!runOf.has(ctx)) {
			if (!runOfId.has(ctx.id)) runOfId.set(ctx.id, unheard.shift() ?? -1)
			runOf.set(ctx, runOfId.get(ctx.id))
		}
		return runOf.get(ctx)
	}

	const tag = (k, i) => runs[k].tags[i] ?? (runs[k].tags[i] = { of: `p${i}`, k })
	const absTag = (k, v) => (v === undefined ? 'none' : v?.merged ? v.of : v?.of && v.k === k ? v.of : '?')
	const absLog = (k, log) => (log?.logOf ? (log.k === k ? log.logOf : '?') : noLogs.includes(log) ? 'no' : typeof log?.info === 'function' && typeof log.getLogger === 'function' ? 'std' : '?')
	const sees = (k, app) => ({ x: absTag(k, app.x), y: absTag(k, app.y), log: absLog(k, app.log) })
	const push = (k, e, p, ctx) => {
		if (ctx && (ctx.name !== name || !/^[0-9a-z]{15}$/.test(ctx.id))) e = `${e} with ${ctx.name} ${ctx.id}`
		ev.push({ k: k + 1, e, p, sees: runs[k].seen })
	}
	const errs = {}
	const fail = p => (errs[p] ??= new Error(p))
	let n = 0
	const gizmo = (kind, key) => {
		const i = ++n
		const p = `p${i}`
		const nolog = noLogs[nl++ % noLogs.length]
		const value = k => ({ [key]: tag(k, i) })
		const enter = ctx => {
			const k = kOf(ctx)
			runs[k].seen = sees(k, ctx)
			runs[k].std ??= ctx.log?.reporter
			push(k, 'create', p, ctx)
			return k
		}
		const start = k => {
			push(k, 'start', p)
			return () => ev.push({ k: k + 1, e: 'close', p })
		}
		switch (kind) {
			case 'plain':
				return { create: ctx => value(enter(ctx)) }
			case 'async':
				return m.app.define({
					async create(ctx) {
						const k = enter(ctx)
						await ticks(3)
						return value(k)
					}
				})
			case 'start':
				return m.app.define({
					async create(ctx) {
						const k = enter(ctx)
						return [value(k), () => start(k)]
					}
				})
			case 'astart':
				return m.app.define(() => ({
					static: m.app.define.require(),
					async create(ctx) {
						const k = enter(ctx)
						return [
							value(k),
							async () => {
								await ticks(3)
								return start(k)
							}
						]
					}
				}))()
			case 'void':
				return { create: ctx => void enter(ctx) }
			case 'fail':
				return {
					async create(ctx) {
						enter(ctx)
						throw fail(p)
					}
				}
			case 'failStart':
				return {
					create(ctx) {
						const k = enter(ctx)
						return [
							value(k),
							() => {
								push(k, 'start', p)
								throw fail(p)
							}
						]
					}
				}
			case 'log':
				return {
					create(ctx) {
						const k = enter(ctx)
						return { log: { logOf: p, k, info: (...args) => own.push({ k, p, args }) } }
					}
				}
			case 'nolog':
				return {
					create(ctx) {
						enter(ctx)
						return { log: nolog }
					}
				}
			case 'gate':
				return {
					async create(ctx) {
						const k = enter(ctx)
						await new Promise(r => (runs[k].open = r))
						return value(k)
					}
				}
		}
	}
	const stage = (kind, what) => app => {
		const k = kOf(app)
		runs[k].seen = sees(k, app)
		push(k, what, '', app)
		if (kind === 'fail') throw fail(what)
		if (kind === 'close') return () => ev.push({ k: k + 1, e: 'close', p: what })
	}
	const isLine = (args, k) => runs[k].app && args.some(a => typeof a === 'string' && a.includes(`created (id: ${runs[k].app.id})`))
	const lines = () => {
		const res = []
		const std = [...(logs ?? []).map(l => l.args), ...(logs ? [] : printed)]
		for (const r of new Set(runs.map(r => r.std).filter(Boolean))) if (r.logs !== logs) std.push(...r.logs.map(l => l.args))
		const all = [...own.map(l => ({ to: l.p, args: l.args, of: l.k })), ...std.map(args => ({ to: 'std', args })),
			// an app that was given reporters does not write to the console
			...(logs ? printed.map(args => ({ to: 'console', args })) : [])
		]
		for (const l of all) {
			const k = runs.findIndex((_, k) => isLine(l.args, k))
			res.push({ k: k + 1, to: l.of !== undefined && l.of !== k ? '?' : l.to })
		}
		own.length = 0
		printed.length = 0
		if (logs) logs.length = 0
		for (const r of runs) if (r.std) r.std.logs.length = 0
		return res
	}
	const settle = async () => {
		await drain()
		const out = { ev, lines: lines() }
		ev = []
		return out
	}
	const begin = kind => {
		const k = runs.length
		const r = { tags: {}, at: 'wait' }
		runs.push(r)
		unheard.push(k)
		// keeps the log of the test app
		const done = kind === 'none' ? builder.create() : builder.create(stage(kind, 'begin'))
		done.then(
			app => {
				r.at = 'ok'
				r.app = app
				if (kOf(app) !== k) r.at = '?'
				if (ids.has(app.id)) r.at = `id again ${app.id}`
				ids.add(app.id)
				r.seen = sees(k, app)
				push(k, 'created', '', app)
				r.std ??= app.log?.reporter
			},
			err => {
				r.at = 'err'
				const p = Object.keys(errs).find(p => errs[p] === err)
				ev.push({ k: k + 1, e: 'rejected', p: p ?? `?${err}`, sees: r.seen })
			}
		)
	}
	return {
		async step(e) {
			ev = []
			switch (e.op) {
				case 'with': {
					if (e.k === 'merge') {
						const i = ++n
						const same = builder.merge({ [e.x]: { merged: true, of: `p${i}` } })
						if (conc.chain) builder = same
					} else {
						const same = builder.with(gizmo(e.k, e.x))
						if (conc.chain) builder = same
					}
					return settle()
				}
				case 'init': {
					const same = builder.init(stage(e.k, 'init'))
					if (conc.chain) builder = same
					return settle()
				}
				case 'create':
					begin(e.begin)
					return settle()
				case 'both': {
					begin(e.begin)
					begin(e.begin)
					const out = await settle()
					out.ev.sort((a, b) => a.k - b.k)
					out.lines.sort((a, b) => a.k - b.k)
					return out
				}
				case 'release':
					runs[e.n - 1].open()
					return settle()
				case 'cleanup':
					m.app.incubate.cleanup(runs[e.n - 1].app)
					return settle()
			}
		},
		obs() {
			return runs.map((r, k) => (r.at === 'ok' ? (r.app.name === name && Object.keys(r.app).every(p => ['name', 'id', 'log', 'x', 'y'].includes(p)) ? sees(k, r.app) : '?') : r.at))
		}
	}
}
