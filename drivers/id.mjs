// Binds JustId.tla to the id gizmos and the apps made with them, under a random source that is given.
import { domEnv, newDom } from '../lib/bundle.mjs'

export const idConcs = [
	{ name: 'plain', names: { n1: 'app', n2: 'app2' } },
	{ name: 'odd', names: { n1: '', n2: '@scope/ü:b' } },
	{ name: 'inherited', names: { n1: 'constructor', n2: '__proto__' } },
	{ name: 'text', names: { n1: ' app ', n2: 'App' } }
]
const digits = (...xs) => xs
const draws = {
	long: digits(0.7071067811865476, 0.1234567890123),
	long2: digits(0.7071067811865476, 0.7071067811865476),
	short: digits(0.5, 0.25),
	short2: digits(0.25, 0.25),
	short3: digits(0.5, 0.5),
	zero: digits(0, 0),
	tiny: digits(1 / 36, Number.EPSILON),
	top: digits(0.9999999999999999, 0.9999999999999999),
	half: digits(0, 0.7071067811865476)
}

let page
export async function idDriver(world, conc) {
	if (!page || page.uses > 60) {
		page?.dom.window.close()
		page = { dom: newDom(), uses: 0, now: {} }
		const random = () => page.now.random()
		const env = domEnv(page.dom, { addEventListener() {}, removeEventListener() {} })
		env.Math = Object.create(Math, { random: { value: random } })
		page.m = world.freshBrowser(env)
	}
	page.uses++
	const m = page.m
	let queue
	page.now.random = () => (queue.length > 1 ? queue.shift() : queue[0])
	const builders = []
	const runs = []
	const value = n => ({ create: () => ({ [n]: 1 }) })
	const make = (f, name) => {
		const options = name === undefined ? undefined : { name }
		switch (f) {
			case 'id':
				return m.app.incubate().with(m.id.idGizmoFn(options))
			case 'idTest':
				return m.app.incubate().with(m.idTesting.idTestGizmoFn(options))
			case 'justApp':
				return m.app.justApp(options)
			case 'justTestApp':
				return m.appTesting.justTestApp(options)
			case 'preset':
				return m.app.justApp(options).with(m.commands.commandsGizmoFn()).with(m.presets.presetsBrowserGizmoFn())
			case 'presetTest':
				return m.appTesting.justTestApp(options).with(m.commands.commandsGizmoFn()).with(m.presetsTesting.presetsBrowserTestGizmoFn())
			case 'all':
				return m.appTesting
					.justTestApp(options)
					.with(value('before'))
					.with(m.os.osGizmo)
					.with(m.keyboard.keyboardGizmoFn())
					.with(m.commands.commandsGizmoFn())
					.with(m.states.statesGizmo)
					.with(m.routes.routesGizmo)
					.with(m.events.eventsGizmoFn())
					.with(m.fetch.fetchGizmo)
					.with(m.presets.presetsBrowserGizmoFn())
					.with(m.browserI18n.browserI18nGizmo)
					.with(m.browserKeyboard.browserKeyboardGizmo)
					.with(value('after'))
		}
	}
	const names = { none: undefined, ...conc.names }
	const absName = n => (n === 'test' ? 'test' : (Object.keys(conc.names).find(k => conc.names[k] === n) ?? `?${String(n)}`))
	const quiet = { name: '', form: true, clash: false }
	return {
		async step(e) {
			if (e.op === 'builder') {
				builders.push(make(e.f, names[e.name]))
				return quiet
			}
			queue = [...draws[e.d]]
			const app = await builders[e.b - 1].create()
			const r = { app, id: app.id, d: e.d }
			const clash = runs.some(x => x.d !== r.d && x.id === r.id)
			runs.push(r)
			return { name: absName(app.name), form: typeof r.id === 'string' && /^[0-9a-z]{15}$/.test(r.id), clash }
		},
		obs() {
			return runs.map(r => ({ name: absName(r.app.name), kept: r.app.id === r.id }))
		}
	}
}
