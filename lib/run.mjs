// node lib/run.mjs <property> [--tier quick|thorough] [--replay file]
import fs from 'node:fs'
import path from 'node:path'
import { exploreAll, makeWorld, record, ROOT, runPart } from './harness.mjs'

const args = process.argv.slice(2)
const prop = args[0]
const opt = n => (args.includes(n) ? args[args.indexOf(n) + 1] : undefined)
const tier = opt('--tier') ?? process.env.VERIF_TIER ?? 'quick'
const seed = Number(process.env.VERIF_SEED ?? 1) || 1
const t0 = Date.now()

let started = false
// unless it gets to the end
process.exitCode = 2
// what the code under test leaves unhandled is looked at by the drivers that care
process.on('unhandledRejection', e => {
	globalThis.__jwUnhandled = (globalThis.__jwUnhandled ?? 0) + 1
	void e
})
process.on('uncaughtException', e => {
	console.error('uncaught:', e?.stack ?? e)
	if (!started) process.exit(2)
	// thrown by code under test outside of any call of ours
	globalThis.__jwUncaught = e ?? 'undefined'
})

const { default: check } = await import(path.join(ROOT, 'checks', `${prop}.mjs`))

if (opt('--replay')) {
	const r = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'))
	const world = await makeWorld()
	const parts = check.parts(tier)
	const part = parts[r.index] ?? parts.find(p => `${p.spec}/${p.cfg}` === r.part)
	const conc = (part.concs ?? [{ name: 'default' }]).find(c => (c.name ?? 'default') === r.conc)
	const cfg = r.events[0].cfg
	const ev = await record(part, world, conc, cfg, i => r.events[i + 1])
	for (const e of ev) console.log(JSON.stringify(e))
	console.log('expected', r.what, JSON.stringify(r.expected))
	process.exit(0)
}

const parts = check.parts(tier)
started = true
let exit = 0
const results = []
let violation
try {
	const [world] = await Promise.all([makeWorld(), exploreAll(parts, { timeoutMs: 800000 })])
	for (const part of parts) {
		const r = await runPart(part, world, { seed, graph: part.graph, budgetMs: part.budgetMs })
		results.push(r)
		if (process.env.JW_VERBOSE)
			console.error(
				`${r.label}: ${r.states} states ${r.transitions} transitions, ${r.behavioursReplayed} behaviours/${r.stepsReplayed} steps replayed, ${r.tracesValidated} traces/${r.traceEvents} events, t=${Date.now() - t0}ms${r.cut ? ' CUT' : ''}`,
				JSON.stringify(r.perOp)
			)
		if (r.violation) {
			violation = { ...r.violation, index: parts.indexOf(part) }
			break
		}
	}
	for (const k of check.known ?? []) {
		const still = await k.run(world)
		if (still === true) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`)
		else if (still && !violation) violation = still
	}
} catch (e) {
	console.error(e?.stack ?? e)
	process.exit(2)
}

const sum = k => results.reduce((a, r) => a + r[k], 0)
const evidence = {
	property: prop,
	tier,
	seed,
	level: 'model_checking',
	coverage: {
		states: sum('states'),
		transitions: sum('transitions'),
		traces_validated_against_impl: sum('behavioursReplayed') + sum('tracesValidated'),
		behaviours_replayed: sum('behavioursReplayed'),
		steps_replayed: sum('stepsReplayed'),
		recorded_traces_accepted: sum('tracesValidated'),
		recorded_events: sum('traceEvents'),
		transitions_replayed: sum('replayed'),
		exhaustive: results.every(r => !r.cut && r.replayed === r.transitions),
		models: results.map(r => ({ model: r.label, states: r.states, transitions: r.transitions, transitions_replayed: r.replayed, concretizations: r.concs, per_operation: r.perOp })),
		samples: results.flatMap(r => r.samples).slice(0, 6)
	},
	assumptions: check.assumptions ?? [],
	wall_s: (Date.now() - t0) / 1000,
	violations: violation ? 1 : 0
}
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
fs.writeFileSync(path.join(ROOT, 'evidence', `${prop}.json`), JSON.stringify(evidence, null, '\t') + '\n')

if (violation) {
	fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true })
	const file = path.join(ROOT, 'replays', `${prop}-${tier}-${seed}.json`)
	fs.writeFileSync(file, JSON.stringify({ property: prop, ...violation }, null, '\t') + '\n')
	console.log(`${violation.part} [${violation.conc}] step ${violation.at} ${violation.what}`)
	console.log(`  operations: ${JSON.stringify(violation.events?.slice(-8))}`)
	console.log(`  expected ${JSON.stringify(violation.expected)?.slice(0, 1500)}`)
	console.log(`  got      ${JSON.stringify(violation.got)?.slice(0, 1500)}`)
	console.log(`VIOLATION property=${prop} replay=${file}`)
	exit = 1
} else
	console.log(
		`OK ${prop}: ${sum('states')} states, ${sum('transitions')} transitions (${sum('replayed')} replayed), ${sum('behavioursReplayed')} behaviours replayed (${sum('stepsReplayed')} steps), ${sum('tracesValidated')} recorded traces accepted (${sum('traceEvents')} events), ${evidence.wall_s}s`
	)
process.exit(exit)
