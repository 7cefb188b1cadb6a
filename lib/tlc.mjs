// Runs TLC on the specifications in /verif/spec and parses what it prints.
import { spawn } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

export const SPEC = path.join(path.dirname(fileURLToPath(import.meta.url)), '..', 'spec')
const CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

function tmpdir(name) {
	return fs.mkdtempSync(path.join(os.tmpdir(), `jw-tlc-${name}-`))
}

function java(dir, args, { heap = '3g', env = {}, onLine, timeoutMs }) {
	return new Promise((resolve, reject) => {
		const p = spawn(
			'java',
			[`-Xmx${heap}`, '-Xss64m', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC', ...args],
			{ cwd: dir, env: { ...process.env, ...env }, stdio: ['ignore', 'pipe', 'pipe'] }
		)
		let rest = ''
		let err = ''
		const killer = timeoutMs ? setTimeout(() => p.kill('SIGKILL'), timeoutMs) : undefined
		p.stdout.setEncoding('utf8')
		p.stdout.on('data', d => {
			rest += d
			let i = rest.indexOf('\n')
			let from = 0
			while (i !== -1) {
				onLine(rest.slice(from, i))
				from = i + 1
				i = rest.indexOf('\n', from)
			}
			rest = rest.slice(from)
		})
		p.stderr.on('data', d => (err += d))
		p.on('error', reject)
		p.on('close', code => {
			if (killer) clearTimeout(killer)
			if (rest) onLine(rest)
			resolve({ code, err })
		})
	})
}

function stats(lines) {
	const s = {}
	for (const l of lines) {
		const m = /^(\d+) states generated, (\d+) distinct states found/.exec(l)
		if (m) {
			s.generated = Number(m[1])
			s.distinct = Number(m[2])
		}
		const d = /depth of the complete state graph search is (\d+)/.exec(l)
		if (d) s.depth = Number(d[1])
	}
	return s
}

function unquote(l) {
	// PrintT of a string prints a TLA+ string literal; its escapes are a subset of JSON's
	return JSON.parse(JSON.parse(l))
}

/** the order of record fields in TLC's output is not stable */
function canon(v) {
	if (Array.isArray(v)) return `[${v.map(canon).join(',')}]`
	if (v && typeof v === 'object')
		return `{${Object.keys(v)
			.sort()
			.map(k => `${k}:${canon(v[k])}`)
			.join(',')}}`
	return JSON.stringify(v)
}

function copySpecs(dir) {
	for (const f of fs.readdirSync(SPEC)) if (f.endsWith('.tla') || f.endsWith('.cfg')) fs.copyFileSync(path.join(SPEC, f), path.join(dir, f))
}

/**
 * Explores `spec` exhaustively under `cfg`, checks its invariants and properties,
 * and returns the whole labelled transition relation TLC printed.
 */
export async function explore(spec, cfg, { workers = 2, timeoutMs = 600000, heap } = {}) {
	const dir = tmpdir(spec)
	try {
		copySpecs(dir)
		const inits = []
		const trans = []
		const lines = []
		const ids = new Map()
		const seenInit = new Set()
		const nodes = []
		const idOf = (t, o) => {
			const k = canon(t)
			let i = ids.get(k)
			if (i === undefined) {
				i = nodes.length
				ids.set(k, i)
				nodes.push({ obs: o })
			} else if (o !== undefined && nodes[i].obs === undefined) nodes[i].obs = o
			return i
		}
		const { code, err } = await java(
			dir,
			['-workers', String(workers), '-deadlock', '-nowarning', '-metadir', path.join(dir, 'meta'), '-config', `${cfg}.cfg`, `${spec}.tla`],
			{
				heap,
				timeoutMs,
				onLine(l) {
					if (l.startsWith('"@I')) {
						const r = unquote('"' + l.slice(3))
						const k = canon(r.a.in)
						if (!seenInit.has(k)) inits.push({ node: idOf(r.t, r.o), in: r.a.in, out: r.a.out })
						seenInit.add(k)
					} else if (l.startsWith('"@T')) {
						const r = unquote('"' + l.slice(3))
						trans.push({ from: idOf(r.s), to: idOf(r.t, r.o), in: r.a.in, out: r.a.out })
					} else lines.push(l)
				}
			}
		)
		if (code !== 0) {
			const e = new Error(`TLC ${spec}/${cfg} exit ${code}\n${lines.filter(l => !/^(Parsing|Semantic processing|TLC2|Running)/.test(l)).slice(-60).join('\n')}\n${err.slice(-2000)}`)
			e.tlc = true
			throw e
		}
		const s = stats(lines)
		return { spec, cfg, inits, trans, nodes, stats: s }
	} finally {
		fs.rmSync(dir, { recursive: true, force: true })
	}
}

const TRACE_TLA = (spec) => `---- MODULE Trace_${spec} ----
EXTENDS ${spec}, IOUtils
TLog == ndJsonDeserialize(IOEnv.JW_TRACE)
VARIABLE l
TraceTell(k, what, exp, got) ==
  IF exp = got THEN TRUE
  ELSE PrintT("@M" \\o ToJson([line |-> k, what |-> what, expected |-> exp, got |-> got])) /\\ FALSE
TInit == /\\ l = 1
         /\\ st = InitSt(TLog[1].in.cfg)
         /\\ act = [in |-> TLog[1].in]
         /\\ TraceTell(1, "obs", ObsOf(st), TLog[1].obs)
TNext == /\\ l < Len(TLog)
         /\\ l' = l + 1
         /\\ LET e == TLog[l + 1] IN
            /\\ act' = [in |-> e.in]
            /\\ IF e.in.op = "new"
               THEN /\\ st' = InitSt(e.in.cfg)
                    /\\ TraceTell(l + 1, "obs", ObsOf(st'), e.obs)
               ELSE LET r == Do(st, e.in) IN
                    /\\ TraceTell(l + 1, "out", r.out, e.out)
                    /\\ st' = r.s
                    /\\ TraceTell(l + 1, "obs", ObsOf(r.s), e.obs)
TraceAccepted == TLCGet("stats").diameter = Len(TLog)
====
`

/** Validates recorded events (one object per line: in, out, obs) against the specification. */
export async function validate(spec, cfg, events, { timeoutMs = 600000, heap, constants = {} } = {}) {
	const dir = tmpdir(`trace-${spec}`)
	try {
		copySpecs(dir)
		fs.writeFileSync(path.join(dir, `Trace_${spec}.tla`), TRACE_TLA(spec))
		const src = fs.readFileSync(path.join(SPEC, `${cfg}.cfg`), 'utf8')
		// keep only the constants and the state invariants of the configuration
		const consts = []
		let on = false
		for (const l of src.split('\n')) {
			if (/^(CONSTANTS?|INVARIANTS?)\b/.test(l)) on = true
			else if (/^[A-Z_]+\b/.test(l)) on = false
			const k = /^\s*(\w+) (=|<-)/.exec(l)?.[1]
			if (on) consts.push(k && Object.hasOwn(constants, k) ? `  ${k} ${constants[k].startsWith('<-') ? '' : '= '}${constants[k]}` : l)
		}
		fs.writeFileSync(
			path.join(dir, 'trace.cfg'),
			`INIT TInit\nNEXT TNext\nPOSTCONDITION TraceAccepted\n${consts.join('\n')}\n`
		)
		fs.writeFileSync(path.join(dir, 'trace.ndjson'), events.map(e => JSON.stringify(e)).join('\n') + '\n')
		const lines = []
		let mismatch
		const { code, err } = await java(
			dir,
			['-workers', '1', '-deadlock', '-nowarning', '-metadir', path.join(dir, 'meta'), '-config', 'trace.cfg', `Trace_${spec}.tla`],
			{
				heap,
				timeoutMs,
				env: { JW_TRACE: path.join(dir, 'trace.ndjson') },
				onLine(l) {
					if (l.startsWith('"@M')) mismatch ??= unquote('"' + l.slice(3))
					else lines.push(l)
				}
			}
		)
		const s = stats(lines)
		return { accepted: code === 0 && !mismatch, mismatch, stats: s, code, tail: lines.slice(-25).join('\n') + err.slice(-1000) }
	} finally {
		fs.rmSync(dir, { recursive: true, force: true })
	}
}
