// Drives the real code along specification behaviours and records behaviours of the real code.
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import { instantiate, loadBundle } from './bundle.mjs'
import { pick, randomWalks, rng, tours } from './graph.mjs'
import { explore, validate } from './tlc.mjs'

export const ROOT = path.join(path.dirname(fileURLToPath(import.meta.url)), '..')

export function equal(a, b) {
	if (a === b) return true
	if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false
	const aa = Array.isArray(a)
	const ba = Array.isArray(b)
	if (aa && ba) {
		if (a.length !== b.length) return false
		for (let i = 0; i < a.length; i++) if (!equal(a[i], b[i])) return false
		return true
	}
	if (aa !== ba) {
		// TLC writes an empty function as []
		return Object.keys(a).length === 0 && Object.keys(b).length === 0
	}
	const ka = Object.keys(a)
	if (ka.length !== Object.keys(b).length) return false
	for (const k of ka) if (!Object.hasOwn(b, k) || !equal(a[k], b[k])) return false
	return true
}

export class World {
	constructor(node, browser) {
		this.bundles = { node, browser }
		this.cached = {}
	}
	/** module instances shared by scenarios of code without module level state */
	shared() {
		return (this.cached.node ??= instantiate(this.bundles.node))
	}
	/** a new instance of every module */
	fresh(env) {
		return instantiate(this.bundles.node, env)
	}
	freshBrowser(env) {
		return instantiate(this.bundles.browser, env)
	}
}

export async function makeWorld() {
	const [n, b] = await Promise.all([loadBundle('node'), loadBundle('browser')])
	return new World(n, b)
}

const HANG_MS = 30000
async function guarded(f) {
	try {
		const p = f()
		if (typeof p?.then !== 'function') return p
		let timer
		const hang = new Promise(r => (timer = setTimeout(() => r({ harnessCaught: 'nothing came back' }), HANG_MS)))
		try {
			return await Promise.race([p, hang])
		} finally {
			clearTimeout(timer)
		}
	} catch (e) {
		return { harnessCaught: String(e?.stack ?? e).split('\n').slice(0, 6) }
	}
}

function copy(v) {
	if (Array.isArray(v)) return v.map(copy)
	if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)]))
	return v
}

/**
 * Takes a step. What a synchronous step does is there when it returns:
 * nothing may be called or change later.
 */
async function take(d, e) {
	let out
	try {
		out = d.step(e)
	} catch (x) {
		return { out: await guarded(() => Promise.reject(x)), obs: await guarded(() => d.obs()) }
	}
	if (typeof out?.then === 'function') {
		const o = await guarded(() => out)
		return { out: o, obs: await guarded(() => d.obs()) }
	}
	const now = copy(out)
	const obs = await guarded(() => d.obs())
	await null
	return { out: equal(out, now) ? now : { before: now, later: copy(out) }, obs }
}

/** Replays one walk; returns undefined or the first disagreement. */
export async function replayWalk(part, world, conc, g, walk) {
	const events = [walk.init.in]
	const own = {}
	const bad = await replayOpen(part, world, conc, g, walk, events, own)
	if (!own.d?.close) return bad
	const r = await guarded(() => own.d.close())
	if (bad || !r?.harnessCaught) return bad
	return { at: walk.edges.length, what: 'close', expected: 'closed', got: r.harnessCaught, events }
}
async function replayOpen(part, world, conc, g, walk, events, own) {
	let d
	try {
		d = own.d = await part.driver(world, conc, walk.init.in.cfg)
	} catch (e) {
		return { at: 0, what: 'create', expected: 'created', got: String(e?.stack ?? e).split('\n').slice(0, 6), events }
	}
	const o0 = await guarded(() => d.obs())
	const e0 = g.nodes[walk.init.node].obs
	if (!equal(o0, e0)) return { at: 0, what: 'obs', expected: e0, got: o0, events }
	for (let i = 0; i < walk.edges.length; i++) {
		const t = g.trans[walk.edges[i]]
		events.push(t.in)
		const { out, obs } = await take(d, t.in)
		if (!equal(out, t.out)) return { at: i + 1, what: 'out', expected: t.out, got: out, events }
		const exp = g.nodes[t.to].obs
		if (!equal(obs, exp)) return { at: i + 1, what: 'obs', expected: exp, got: obs, events }
	}
	return undefined
}

/** Runs a list of inputs on the real code, returns the recorded events. */
export async function record(part, world, conc, cfg, next) {
	const d = await part.driver(world, conc, cfg)
	const events = []
	try {
		events.push({ in: { op: 'new', cfg }, obs: await guarded(() => d.obs()) })
		for (;;) {
			const e = next(events.length - 1, d)
			if (!e) break
			events.push({ in: e, ...(await take(d, e)) })
		}
	} finally {
		const r = d.close && (await guarded(() => d.close()))
		if (r?.harnessCaught) throw new Error(`close: ${[r.harnessCaught].flat().join('\n')}`)
	}
	return events
}

const hash = s => {
	let h = 2166136261
	for (const c of s) h = Math.imul(h ^ c.charCodeAt(0), 16777619)
	return h >>> 0
}

function concName(c) {
	return c?.name ?? 'default'
}

/**
 * part: { spec, cfg, driver(world, conc, cfg), concs: [..], walks: {n, len}, tourLen,
 *         trace: { n, len, cfgs: [...], gen(r, i, driver) => input } }
 */
export async function runPart(part, world, { seed, graph, budgetMs }) {
	const label = `${part.spec}/${part.cfg}`
	const res = {
		label,
		states: 0,
		transitions: 0,
		replayed: 0,
		concs: (part.concs ?? [{}]).map(concName),
		behavioursReplayed: 0,
		stepsReplayed: 0,
		tracesValidated: 0,
		traceEvents: 0,
		samples: [],
		perOp: {},
		violation: undefined
	}
	const t0 = Date.now()
	const concs = part.concs ?? [{ name: 'default' }]
	globalThis.__jwUncaught = undefined
	const walked = new Set()
	if (graph) {
		res.states = graph.stats.distinct
		res.transitions = graph.trans.length
		for (const t of graph.trans) res.perOp[t.in.op] = (res.perOp[t.in.op] ?? 0) + 1
		const tour = tours(graph, { maxLen: part.tourLen ?? 60, seed })
		if (tour.uncovered) throw new Error(`${label}: ${tour.uncovered} transitions not reachable by tours`)
		for (let c = 0; c < concs.length; c++) {
			const conc = concs[c]
			const ok = w => !conc.accepts || w.init === undefined || conc.accepts(w.init.in.cfg)
			// every tour goes to at least one of the concretizations it is accepted by
			const mine = (w, i) => {
				const all = concs.filter(x => !x.accepts || x.accepts(w.init.in.cfg))
				const skip = Math.min(conc.tourEvery ?? 1, all.length)
				return ok(w) && all.indexOf(conc) % skip === i % skip
			}
			let walks = tour.walks.filter(mine)
			const rw = part.walks ? randomWalks(graph, { ...part.walks, seed: (seed * 7919 + hash(label + c)) >>> 0 }).filter(ok) : []
			walks = walks.concat(rw)
			for (const w of walks) {
				if (budgetMs && Date.now() - t0 > budgetMs) {
					res.cut = true
					break
				}
				let bad = await replayWalk(part, world, conc, graph, w)
				res.behavioursReplayed++
				res.stepsReplayed += w.edges.length
				for (const x of w.edges) walked.add(x)
				if (!bad && globalThis.__jwUncaught !== undefined) {
					const e = globalThis.__jwUncaught
					bad = { at: w.edges.length, what: 'uncaught', expected: 'no uncaught error', got: String(e?.stack ?? e), events: w.edges.map(x => graph.trans[x].in) }
				}
				if (bad) {
					res.violation = { kind: 'replay', part: label, conc: concName(conc), ...bad }
					return res
				}
			}
		}
		res.replayed = walked.size
		const s = tour.walks[0]
		if (s) res.samples.push({ from: label, behaviour: s.edges.slice(0, 6).map(e => ({ in: graph.trans[e].in, out: graph.trans[e].out })) })
	}
	if (part.trace) {
		const all = []
		const starts = []
		for (let c = 0; c < concs.length; c++) {
			const conc = concs[c]
			for (let k = 0; k < part.trace.n; k++) {
				const r = rng((seed * 104729 + hash(label + concName(conc)) + k * 31) >>> 0)
				const cfgs = part.trace.cfgs.filter(x => !conc.accepts || conc.accepts(x))
				if (!cfgs.length) continue
				// every one in turn
				const cfg = cfgs[(seed + c * part.trace.n + k) % cfgs.length]
				let ev
				try {
					const memo = {}
					ev = await record(part, world, conc, cfg, (i, d) => (i < part.trace.len ? part.trace.gen(r, i, d, cfg, memo) : undefined))
				} catch (e) {
					res.violation = { kind: 'trace', part: label, conc: concName(conc), what: 'create', got: String(e?.stack ?? e), expected: 'created', events: [] }
					return res
				}
				starts.push({ at: all.length, conc: concName(conc) })
				for (const x of ev) all.push(x)
			}
		}
		res.traceEvents = all.length
		const v = await validate(part.spec, part.cfg, all, { constants: part.traceConstants })
		if (!v.accepted) {
			// neither the specification nor the machine: TLC has to have evaluated the trace
			if (/Parsing or semantic analysis failed/.test(v.tail) || (!v.mismatch && !/states generated/.test(v.tail))) throw new Error(v.tail)
			const line = v.mismatch?.line ?? v.stats.depth ?? 0
			let s = starts[0]
			for (const x of starts) if (x.at < line) s = x
			const evs = all.slice(s.at, line || undefined)
			res.violation = {
				kind: 'trace',
				part: label,
				conc: s.conc,
				at: line - s.at,
				what: v.mismatch?.what ?? 'tlc',
				expected: v.mismatch?.expected ?? v.tail,
				got: v.mismatch?.got ?? evs.at(-1),
				events: evs.map(e => e.in)
			}
			return res
		}
		res.tracesValidated = starts.length
		res.samples.push({ from: label, recorded: all.slice(1, 5) })
	}
	return res
}

export async function exploreAll(parts, opts) {
	const seen = new Map()
	await Promise.all(
		parts
			.filter(p => p.cfg && p.noExplore !== true)
			.map(async p => {
				const k = `${p.spec}/${p.cfg}`
				if (!seen.has(k)) seen.set(k, explore(p.spec, p.cfg, opts))
				p.graph = await seen.get(k)
			})
	)
}

/** lets promise reactions run */
export async function ticks(n = 10) {
	for (let i = 0; i < n; i++) await undefined
}

/** lets everything happen that happens without waiting for something else, however many turns it takes */
export const drain = () => new Promise(resolve => setImmediate(resolve))
