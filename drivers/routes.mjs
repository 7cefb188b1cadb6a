// Binds JustRoutes.tla to routesGizmo.
import { range } from '../lib/wide.mjs'
import { logTap, makeApp } from './apps.mjs'

export const routesConcs = [
	{ name: 'plain', routes: { root: '/', r1: '/a', r2: '/a/b' } },
	{ name: 'inherited', routes: { root: '/', r1: 'constructor', r2: '__proto__' } },
	{ name: 'odd', routes: { root: '/', r1: '', r2: 'hasOwnProperty' } },
	{ name: 'alike', routes: { root: '/', r1: '/a', r2: '/a/' } },
	{ name: 'text', routes: { root: '/', r1: '/A?x=1#h', r2: '/a?x=1#h' } },
	{ name: 'query', routes: { root: '/', r1: '/a?x=1', r2: '/a' } }
]
const SLOTS = range('t', 48)
/** names like r that are not r */
const like = r => [`${r}/`, `${r}?x=1`, `${r}#h`, ` ${r}`, `${r} `, r.toUpperCase(), r.toLowerCase(), r.slice(1), r.slice(0, -1), `${r}/b`, `/${r}`, encodeURI(r), `.${r}`, '*', '/*', '.*', ':id', '']
const INHERITED = ['constructor', 'toString', '__proto__', 'hasOwnProperty', 'valueOf', '/unknown']

export async function routesDriver(world, conc) {
	const m = world.shared()
	const apps = {}
	const log = {}
	for (const a of ['A', 'B']) {
		apps[a] = await makeApp(m, { gizmos: [m.routes.routesGizmo] })
		log[a] = logTap(apps[a])
	}
	const boom = new Error('boom')
	const NEXT = { root: 'r1', r1: 'r2', r2: 'root' }
	let calls = []
	let fuel = 1
	// what the slot is now, and the functions it was given before
	const live = {}
	const old = {}
	const slots = {}
	let strays = 0
	const known = new Set(Object.values(conc.routes))
	const handler = (a, t) =>
		(slots[a + t] ??= (...args) => {
			calls.push(args.length ? `${t}(${args.length})` : t)
			const { r, b, off } = live[a + t]
			if (b === 'throw') throw boom
			if (b === 'off') {
				retire(a, t)
				off()
			}
			if (b === 'renew') {
				const was = live[a + t]
				;(old[a + t] ??= []).push(was.off)
				was.off()
				was.off = apps[a].routes.register(conc.routes[r], handler(a, t))
			}
			if (b === 'go' && fuel-- > 0) apps[a].routes.navigate(conc.routes[NEXT[r] ?? 'root'])
		})
	const retire = (a, t) => {
		;(old[a + t] ??= []).push(live[a + t].off)
		live[a + t].gone = true
	}
	return {
		step(e) {
			const { a, t } = e
			const { routes } = apps[a]
			const r = e.r && conc.routes[e.r]
			calls = []
			fuel = 1
			for (const x in log) log[x].skip()
			let ret = '-'
			switch (e.op) {
				case 'register': {
					const taken = routes.hasRoute(r)
					const off = routes.register(r, handler(a, t))
					if (taken) (old[a + t] ??= []).push(off)
					else live[a + t] = { r: e.r, b: e.b, off }
					break
				}
				case 'unregister': {
					const { off } = live[a + t]
					retire(a, t)
					off()
					break
				}
				case 'stale':
					for (const off of old[a + t] ?? []) off()
					break
				case 'clear':
					for (const s of SLOTS) if (live[a + s] && !live[a + s].gone) retire(a, s)
					routes.clearRoutes()
					break
				case 'config':
					routes.config({ initialRoute: r })
					break
				case 'config0':
					routes.config({})
					break
				case 'stray': {
					const names = like(r).filter(x => !known.has(x))
					routes.navigate(names[strays++ % names.length])
					break
				}
				case 'go':
				case 'home':
					try {
						if (e.op === 'go') routes.navigate(r)
						else routes.navigate()
					} catch (x) {
						ret = x === boom ? 'threw' : `other: ${x}`
					}
			}
			const errors = Object.fromEntries(Object.keys(log).map(x => [x, log[x].count(m.app.logLevels.error)]))
			const other = a === 'A' ? 'B' : 'A'
			return { calls, ret, errors: errors[other] ? errors : errors[a] }
		},
		obs() {
			return {
				has: Object.fromEntries(
					this.apps.map(a => [a, Object.fromEntries(this.routes.map(r => [r, apps[a].routes.hasRoute(conc.routes[r])]))])
				),
				alien: ['A', 'B'].flatMap(a => INHERITED.filter(k => !Object.values(conc.routes).includes(k) && apps[a].routes.hasRoute(k)))
			}
		},
		isLive: (a, t) => !!live[a + t] && !live[a + t].gone,
		hasOld: (a, t) => !!old[a + t]
	}
}

export const routesDriverOf = (apps, routes) => async (world, conc) => Object.assign(await routesDriver(world, conc), { apps, routes })
