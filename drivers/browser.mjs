// Binds JustBrowser.tla to browserGizmoFn and the gizmos built on it, on a page of its own.
import { domEnv, newDom } from '../lib/bundle.mjs'
import { drain } from '../lib/harness.mjs'
import { amid, logTap } from './apps.mjs'

const boom = new Error('some error')
const typed = Object.assign(new TypeError('x is not a function'), { code: 7 })
export const browserConcs = [
	{
		name: 'browser',
		make: m => options => m.browser.browserGizmoFn(options),
		errs: {
			x1: { message: 'Uncaught Error: some error', filename: 'https://app.test/a.js', lineno: 12, colno: 34, error: boom },
			x2: { message: 'Uncaught TypeError: x', filename: 'https://app.test/b.js', lineno: 1, colno: 1, error: typed },
			// of a script of another origin
			x3: { message: 'Script error.', filename: '', lineno: 0, colno: 0, error: undefined }
		}
	},
	{
		name: 'test',
		make: m => options => m.browserTesting.browserTestGizmoFn(options),
		own: 'x3',
		errs: {
			x1: { message: '', filename: '', lineno: 0, colno: 0, error: boom },
			x2: { message: 'Error\nof two lines', filename: 'é.js', lineno: 1, colno: 2, error: boom },
			x3: { message: 'Error\nof two lines', filename: 'é.js', lineno: 2, colno: 1, error: boom }
		}
	},
	{ name: 'preset', commands: true, make: m => options => m.presets.presetsBrowserGizmoFn(options && { browser: options }), thrown: [boom, typed, new Error()] },
	{ name: 'presetTest', commands: true, own: 'x1', make: m => options => m.presetsTesting.presetsBrowserTestGizmoFn(options && { browser: options }), thrown: [new RangeError('r'), boom, typed] }
]

/** the same with n kinds of errors */
export const browserWide = n =>
	browserConcs.map(c => {
		const made = Array.from({ length: n }, (_, k) => (k % 2 ? new Error(`e${k}`) : Object.assign(new Error('same'), { k })))
		if (c.thrown) return { ...c, thrown: [...c.thrown, ...made].slice(0, n) }
		const errs = { ...c.errs }
		for (let k = 4; k <= n; k++) errs[`x${k}`] = { message: `Uncaught ${k % 3 ? 'Error: same' : `e${k}`}`, filename: 'https://app.test/a.js', lineno: k, colno: 7, error: made[k - 1] }
		return { ...c, errs }
	})

export async function browserDriver(world, conc, _cfg, names) {
	const dom = newDom()
	const w = dom.window
	const m = world.freshBrowser(domEnv(dom))
	const seen = []
	let unhandled = 0
	let throwing
	const vc = w._virtualConsole ?? dom.virtualConsole
	vc?.on('jsdomError', () => unhandled++)
	const details = e => ({ message: e.message, filename: e.filename, lineno: e.lineno, colno: e.colno, error: e.error })
	const same = (x, e) =>
		e.message === x.message && e.source === x.filename && e.lineno === x.lineno && e.colno === x.colno && (e.cause === x.error || (x.error === null && e.cause === undefined))
	const errs = { ...(conc.errs ?? {}) }
	const thrown = [...(conc.thrown ?? [])]
	// an error that has been recorded by another app, say
	if (conc.own) {
		const inner = new m.browser.BrowserError('an inner one', 'inner.js', 5, 6, boom)
		if (conc.errs) errs[conc.own] = { ...errs[conc.own], error: inner }
		else thrown[Number(conc.own.slice(1)) - 1] = inner
	}
	// what a subscriber raises
	const known = { ...errs, xr: { message: 'raised', filename: 'https://app.test/r.js', lineno: 8, colno: 9, error: new Error('raised') } }
	const abs = e => {
		if (!(e instanceof m.browser.BrowserError)) return `not a BrowserError: ${e}`
		return Object.keys(known).find(x => same(known[x], e)) ?? `?${e.message}@${e.source}:${e.lineno}:${e.colno} ${e.cause}`
	}
	w.addEventListener('error', ev => {
		if (conc.thrown && throwing) known[throwing] ??= details(ev)
	})
	const fire = x => {
		throwing = x
		unhandled = 0
		if (conc.thrown) {
			const f = () => {
				throw thrown[Number(x.slice(1)) - 1]
			}
			w.addEventListener('jw-throw', f)
			w.dispatchEvent(new w.Event('jw-throw'))
			w.removeEventListener('jw-throw', f)
			return unhandled === 0
		}
		const ev = new w.ErrorEvent('error', { ...errs[x], cancelable: true })
		w.dispatchEvent(ev)
		return ev.defaultPrevented
	}
	const raise = () => {
		throwing = undefined
		w.dispatchEvent(new w.ErrorEvent('error', { ...known.xr, cancelable: true }))
	}
	// the entry comes with the error, or its message
	const told = ({ args }) =>
		args.some(v => v instanceof m.browser.BrowserError || Object.values(known).some(k => (k.error !== undefined && Object.is(v, k.error)) || String(v).includes(k.message)))
	const apps = {}
	let now
	let ev = []
	const subs = {}
	const quiet = () => ({ ev: [], logs: Object.fromEntries(names.map(a => [a, 0])), prevented: false })
	const errorsOf = a => apps[a].app.browser.errors
	return {
		async step(e) {
			ev = []
			const x = apps[e.a]
			switch (e.op) {
				case 'start': {
					let open
					const gate = new Promise(r => (open = r))
					let b = m.appTesting.justTestApp({ name: e.a })
					if (conc.commands) b = b.with(m.commands.commandsGizmoFn())
					const options = e.pd ? { preventDefault: true } : subs.flip ? { preventDefault: false } : undefined
					subs.flip = !subs.flip
					let reporter
					b = b
						.with({
							create(ctx) {
								reporter = ctx.log.reporter
								return {}
							}
						})
						.with(conc.make(m)(options))
						.with({
							async create() {
								await gate
								return {}
							}
						})
					// the same, given other options
					const other = m.appTesting
						.justTestApp({ name: 'other' })
						.with(m.commands.commandsGizmoFn())
						.with(conc.make(m)(e.pd ? { preventDefault: false } : undefined))
						.init(app => setImmediate(() => m.app.incubate.cleanup(app)))
					const rec = (apps[e.a] = { open, subs: {} })
					rec.done = amid(b, other).then(app => {
						rec.app = app
					})
					await drain()
					rec.log = logTap({ log: { reporter } })
					return quiet()
				}
				case 'finish':
					x.open()
					await x.done
					return quiet()
				case 'clean':
					m.app.incubate.cleanup(x.app)
					return quiet()
				case 'sub':
					x.subs[e.h] = errorsOf(e.a).onChange((n, o) => {
						ev.push({ a: e.a, h: e.h, n: n.map(abs), o: o.map(abs) })
						if (e.b === 'offSelf') x.subs[e.h]()
						if (e.b === 'raise' && ev.at(-1).n.at(-1) !== 'xr') raise()
					})
					return quiet()
				case 'off':
					x.subs[e.h]()
					return quiet()
				case 'tamper': {
					const list = errorsOf(e.a).get()
					for (const f of [() => list.push(boom), () => (list.length = 0), () => list.reverse(), () => errorsOf(e.a).set([]), () => errorsOf(e.a).add(boom), () => errorsOf(e.a).reset()])
						try {
							f()
						} catch {}
					return { ...quiet(), ev }
				}
				case 'error': {
					for (const a of names) apps[a]?.log?.skip()
					const prevented = fire(e.x)
					const logs = Object.fromEntries(
						names.map(a => {
							const xs = (apps[a]?.log?.take() ?? []).filter(l => l.level === m.app.logLevels.error)
							return [a, xs.every(told) ? xs.length : 'does not tell the error']
						})
					)
					// recorded when the event has been handled
					now = JSON.stringify(this.obs())
					return { ev: [...ev], logs, prevented }
				}
			}
		},
		obs() {
			if (now) {
				const then = now
				now = undefined
				if (then !== JSON.stringify(this.obs())) return 'recorded later'
			}
			return Object.fromEntries(names.map(a => [a, apps[a]?.app ? errorsOf(a).get().map(abs) : []]))
		},
		phase: a => apps[a]?.phase,
		close() {
			w.close()
		}
	}
}
export const browserDriverOf = names => (world, conc, cfg) => browserDriver(world, conc, cfg, names)
