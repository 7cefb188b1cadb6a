// Shows that the specifications decide what is recorded: every part's traces of the real code are
// accepted as they are and rejected, at the very event, when one value in them is another one.
//   node tools/selftest.mjs [property ...]
// Not one of the registered checks: it tests the checks.
import fs from 'node:fs'
import path from 'node:path'
import { pick, rng } from '../lib/graph.mjs'
import { makeWorld, record, ROOT } from '../lib/harness.mjs'
import { validate } from '../lib/tlc.mjs'

process.on('unhandledRejection', () => undefined)
process.on('uncaughtException', e => (globalThis.__jwUncaught = e))
const CORRUPTIONS = Number(process.env.JW_CORRUPTIONS ?? 4)

/** every place in v that holds a value, as [holder, key] */
function places(v, found = []) {
	for (const k of Object.keys(v)) {
		const x = v[k]
		if (x && typeof x === 'object' && Object.keys(x).length) places(x, found)
		else found.push([v, k])
	}
	return found
}
function other(v) {
	if (typeof v === 'number') return v + 1
	if (typeof v === 'boolean') return !v
	if (typeof v === 'string') return `${v}?`
	return ['other']
}

const names = process.argv.length > 2 ? process.argv.slice(2) : fs.readdirSync(path.join(ROOT, 'checks')).filter(f => /^C\d+\.mjs$/.test(f)).map(f => f.replace('.mjs', '')).sort()
const world = await makeWorld()
let wrong = 0
let done = 0
for (const name of names) {
	const { default: check } = await import(path.join(ROOT, 'checks', `${name}.mjs`))
	const seen = new Set()
	for (const part of check.parts('quick')) {
		if (!part.trace) continue
		const label = `${name} ${part.spec}/${part.cfg}${part.traceConstants ? ' (wide)' : ''}`
		if (seen.has(label)) continue
		seen.add(label)
		const conc = (part.concs ?? [{}])[0]
		const r = rng(4711)
		const cfgs = part.trace.cfgs.filter(c => !conc.accepts || conc.accepts(c))
		const cfg = cfgs[cfgs.length - 1]
		const memo = {}
		const len = Math.min(part.trace.len, 40)
		const ev = JSON.parse(JSON.stringify(await record(part, world, conc, cfg, (i, d) => (i < len ? part.trace.gen(r, i, d, cfg, memo) : undefined))))
		const opts = { constants: part.traceConstants }
		const plain = await validate(part.spec, part.cfg, ev, opts)
		if (!plain.accepted) {
			wrong++
			console.log(`${label}: NOT ACCEPTED as recorded`, plain.mismatch ?? plain.tail)
			continue
		}
		const tries = Array.from({ length: CORRUPTIONS }, () => {
			const c = structuredClone(ev)
			const at = Math.floor(r() * c.length)
			const e = c[at]
			const all = places({ out: e.out ?? {}, obs: e.obs }).filter(([h]) => h !== e)
			const holders = all.filter(([h, k]) => h[k] !== undefined)
			if (!holders.length) return undefined
			// the place itself, or the whole of out or obs when that is what it is
			const box = { ...(e.out === undefined ? {} : { out: e.out }), obs: e.obs }
			const [h, k] = pick(r, places(box))
			const from = h[k]
			h[k] = other(from)
			if ('out' in box) e.out = box.out
			e.obs = box.obs
			return { c, at, k, from, to: h[k] }
		}).filter(Boolean)
		const rs = await Promise.all(tries.map(t => validate(part.spec, part.cfg, t.c, opts)))
		rs.forEach((v, i) => {
			done++
			const t = tries[i]
			const line = v.mismatch?.line
			if (v.accepted || (line !== undefined && line !== t.at + 1)) {
				wrong++
				console.log(`${label}: event ${t.at} ${t.k}: ${JSON.stringify(t.from)} -> ${JSON.stringify(t.to)}: ${v.accepted ? 'ACCEPTED' : `rejected at ${line}`}`, JSON.stringify(ev[t.at].in))
			} else if (line === undefined) console.log(`${label}: event ${t.at} ${t.k}: rejected by TLC: ${v.tail.split('\n').find(l => /rror/.test(l))}`)
		})
		console.log(`${label}: ${ev.length} events accepted, ${tries.length} changed copies`)
	}
}
console.log(`${done} changed traces, ${wrong} wrong`)
process.exit(wrong ? 1 : 0)
