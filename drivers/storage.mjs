// Binds JustStorage.tla to stubStorage, stubLocalStorage and stubSessionStorage.
import { domEnv, newDom } from '../lib/bundle.mjs'

export const storageConcs = [
	{ name: 'plain', keys: { k1: 'a', k2: 'b', k3: 'ab', k4: 'c' }, vals: { v1: 'x', v2: '', v3: '{"a":1}' } },
	{ name: 'members', keys: { k1: 'length', k2: 'getItem', k3: '__proto__', k4: 'constructor' }, vals: { v1: 'null', v2: 'undefined', v3: '0' } },
	{ name: 'odd', keys: { k1: '', k2: ' ', k3: 'ü\u0000', k4: '💡' }, vals: { v1: '', v2: ' ', v3: '💡\n' } },
	{ name: 'numbers', keys: { k1: '10', k2: '2', k3: '-1', k4: '1' }, vals: { v1: '5', v2: '1', v3: 'false' } }
]

let page
export async function storageDriver(world, conc, cfg) {
	if (!page || page.uses++ > 500) {
		page?.dom.window.close()
		page = { dom: newDom(), uses: 0 }
		page.m = world.freshBrowser(domEnv(page.dom, { addEventListener() {}, removeEventListener() {} }))
	}
	const { m } = page
	const w = page.dom.window
	w.localStorage.clear()
	w.sessionStorage.clear()
	const stores = { local: w.localStorage, session: w.sessionStorage }
	const stubOf = x => (stores[x] ??= m.browserTesting.stubStorage())
	const boom = new Error('stub')
	let calls = []
	const stub = {}
	for (const [member, a] of Object.entries(cfg.stub)) {
		if (a === 'no') continue
		if (member === 'length') {
			if (a === 'throw') Object.defineProperty(stub, 'length', { get() { throw boom } })
			// a length is a number, and not 0: see known-findings.txt
			else stub.length = a === 'zero' || a === 'null' ? 7 : 9
		} else
			stub[member] = (...x) => {
				calls.push({ member, x })
				if (a === 'throw') throw boom
				return { null: null, text: '<text>', zero: 0, undef: undefined }[a]
			}
	}
	const via = cfg.kind === 'local' ? m.browserTesting.stubLocalStorage(stub) : m.browserTesting.stubSessionStorage(stub)
	// the members of a stub of sessionStorage must be called on sessionStorage: see known-findings.txt
	const bound =
		cfg.kind === 'local'
			? via
			: new Proxy(via, {
					get(_, p) {
						const v = via[p]
						return typeof v === 'function' ? (...x) => v.apply(w.sessionStorage, x) : v
					}
				})
	const on = x => (x === 'via' ? bound : x in stores ? stores[x] : stubOf(x))
	const K = conc.keys
	const V = conc.vals
	const keyName = k => Object.keys(K).find(x => K[x] === k) ?? `?${k}`
	const valName = v => (v === null ? 'none' : (Object.keys(V).find(x => V[x] === v) ?? `?${typeof v}:${v}`))
	const order = {}
	const forget = e => {
		// the order may change with the number of keys
		const x = e.on === 'via' ? cfg.kind : e.on
		const n = stores[x]?.length
		return () => {
			if (stores[x]?.length !== n) delete order[x]
		}
	}
	return {
		async step(e) {
			const s = on(e.on)
			const check = forget(e)
			calls = []
			const member = { get: 'getItem', set: 'setItem', remove: 'removeItem', clear: 'clear', key: 'key', length: 'length' }[e.op]
			const stubbed = e.on === 'via' && member ? cfg.stub[member] : 'no'
			const input = e.op === 'set' ? [K[e.k], V[e.v]] : e.op === 'key' ? [0] : 'k' in e ? [K[e.k]] : []
			const call = () => (member === 'length' ? s.length : s[member](...input))
			if (stubbed !== 'no') {
				let got
				try {
					got = call()
				} catch (err) {
					got = err
				}
				const want =
					stubbed === 'throw' ? boom : member === 'length' ? stub.length : { null: null, text: '<text>', zero: 0, undef: undefined }[stubbed]
				return {
					op: 'stub',
					calls: calls.length,
					args: calls.every(c => c.member === member && c.x.length === input.length && c.x.every((v, i) => v === input[i])),
					answer: Object.is(got, want) ? stubbed : `?${got}`
				}
			}
			try {
				switch (e.op) {
					case 'get':
						return { op: 'get', v: valName(call()) }
					case 'length':
						return { op: 'length', n: call() }
					case 'key': {
						const k = call()
						return { op: 'key', some: k !== null && Object.values(K).includes(k) }
					}
					case 'enum': {
						const x = e.on === 'via' ? cfg.kind : e.on
						const seen = []
						for (let i = 0; i < s.length; i++) seen.push(s.key(i))
						const keys = Object.fromEntries(conc.ks.map(k => [k, seen.filter(y => y === K[k]).length]))
						for (const y of seen) if (keyName(y)[0] === '?') keys[keyName(y)] = 1
						const stable = !order[x] || (order[x].length === seen.length && order[x].every((y, i) => y === seen[i]))
						order[x] = seen
						const beyond = [s.length, s.length + 1, s.length + 7, -1, 4294967295 - 1].every(i => s.key(i) === null)
						return { op: 'enum', keys, stable, beyond }
					}
					case 'drain': {
						let steps = 0
						while (s.length > 0 && steps < 1000) {
							s.removeItem(s.key(e.end === 'first' ? 0 : s.length - 1))
							steps++
						}
						return { op: 'drain', steps }
					}
					default: {
						const r = call()
						return r === undefined ? { op: 'quiet' } : { op: 'returned' }
					}
				}
			} catch (err) {
				return { op: 'threw', m: String(err) }
			} finally {
				check()
			}
		},
		obs() {
			const data = {}
			const len = {}
			for (const x of [...conc.stubs, 'local', 'session']) {
				const s = stores[x] ?? stubOf(x)
				data[x] = Object.fromEntries(conc.ks.map(k => [k, valName(s.getItem(K[k]))]))
				len[x] = s.length
			}
			return { data, len }
		}
	}
}
