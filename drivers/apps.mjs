// What the drivers of apps share.
let n = 0
/** a test app made with the given gizmos; each one is its own app and log */
export async function makeApp(m, { name, gizmos = [] } = {}) {
	let b = m.appTesting.justTestApp({ name: name ?? `app${n++}` })
	for (const g of gizmos) b = b.with(g)
	return b.create()
}

/**
 * Creates an app while others are created, step by step:
 * what one of them is made of must not get into another.
 */
let turn = 0
export async function amid(builder, ...others) {
	const late = turn++ % 2
	const before = late ? others.map(b => b.create()) : []
	const app = builder.create()
	await Promise.all([...before, ...(late ? [] : others.map(b => b.create()))])
	return app
}
/** creates all of them, at the same time or one after the other */
export async function createAll(builders, together) {
	const apps = {}
	if (!together) for (const [a, b] of Object.entries(builders)) apps[a] = await b.create()
	else {
		const all = Object.entries(builders)
		const started = (turn++ % 2 ? all : all.toReversed()).map(([a, b]) => [a, b.create()])
		for (const [a, p] of started) apps[a] = await p
	}
	return apps
}

const pages = new WeakMap()
/**
 * the log of the page: what is written by code that belongs to no app.
 * It is that of the first app ever made, so call this before making one.
 */
export async function pageLog(m) {
	if (!pages.has(m)) {
		const reporter = { id: 'page', logs: [], write: e => void reporter.logs.push(e) }
		await m.app.justApp({ name: 'page', log: { logLevel: Number.POSITIVE_INFINITY, reporters: [reporter] } }).create()
		pages.set(m, { log: { reporter } })
	}
	return pages.get(m)
}

/** counts of log entries per level since the last look */
export function logTap(app) {
	const { logs } = app.log.reporter
	let seen = logs.length
	const take = () => {
		const xs = logs.slice(seen)
		seen = logs.length
		return xs
	}
	return {
		skip() {
			seen = logs.length
		},
		take,
		count(level) {
			return take().filter(l => l.level === level).length
		}
	}
}

/** one way of writing arguments: U stands for undefined */
export function argsConc(a, b) {
	const to = { a, b, U: undefined }
	return {
		real: xs => xs.map(x => to[x]),
		abs: xs => Array.from(xs, x => Object.keys(to).find(k => Object.is(to[k], x)) ?? `?${String(x)}`)
	}
}
