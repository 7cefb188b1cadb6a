import { logConcs, logDriverOf } from '../drivers/log.mjs'
import { pick } from '../lib/graph.mjs'
import { range, setOf } from '../lib/wide.mjs'

const KEYS = ['N', 'N:i', 'N:j', 'N:p', 'N:p:i', 'N:p:j']
const NC = KEYS.slice(1)
const METHODS = ['critical', 'error', 'warn', 'notice', 'custom', 'info', 'debug', 'trace', 'planck']
const LEVELS = ['none', 'error', 'custom', 'info', 'trace', 'planck']
const genOf = (apps, KEYS, NC) => function gen(r, i, _d, _cfg, memo) {
	if (i === 0) Object.assign(memo, { up: [], made: {}, nc: {} })
	for (;;) {
		const a = pick(r, apps)
		if (!memo.up.includes(a)) {
			if (memo.up.length && r() < 0.7) continue
			memo.up.push(a)
			memo.made[a] = ['N']
			memo.nc[a] = []
			return { op: 'create', a }
		}
		const op = pick(r, ['get', 'get', 'level', 'log', 'log', 'log', 'log', 'on', 'count'])
		const nc = op !== 'count' && r() < 0.3
		const have = (nc ? memo.nc : memo.made)[a]
		if (op === 'get') {
			const k = pick(r, nc ? NC : KEYS)
			if (nc && memo.made[a].includes(k)) continue
			if (!have.includes(k)) have.push(k)
			return { op, a, k, nc, l: k === 'N' ? 'app' : pick(r, ['app', 'app', ...LEVELS]) }
		}
		if (!have.length) continue
		const k = pick(r, have)
		if (op === 'level') {
			if (k === 'N') continue
			return { op, a, k, nc, l: pick(r, ['app', ...LEVELS]) }
		}
		if (op === 'count') return { op, a, k, nc: false }
		return { op, a, k, nc, m: pick(r, METHODS) }
	}
}
const gen = genOf(['A', 'B', 'C'], KEYS, NC)
// many loggers of many apps
const sub = range('x', 12)
const wideKeys = [...KEYS, ...sub.map(x => `N:${x}`), ...sub.map(x => `N:p:${x}`)]
const many = { apps: ['A', 'B', 'C', 'D', 'E', 'F'], keys: wideKeys, nc: wideKeys.slice(1) }
const names = { D: 'd', E: 'E', F: 'long'.repeat(50) }
const subIds = { x1: 'ключ', x2: '日本', x3: 'x.y', x4: 'x/y', x5: '@x/y-z', x6: 'long'.repeat(50), x7: '1', x8: 'prototype', x9: 'A', x10: 'é', x11: 'N', x12: 'x_y' }
const levels = ['none', 'error', 'custom', 'info', 'debug', 'trace', 'planck']
const cfgs = [...levels.map(x => ({ A: x, B: x, C: x })), ...levels.flatMap((x, i) => [{ A: x, B: levels[(i + 3) % 7], C: 'info' }])]
export default {
	parts: tier => {
		const deep = tier === 'thorough'
		const walks = { n: deep ? 200 : 10, len: 100 }
		const part = (x, apps, every) => ({
			spec: 'JustLog',
			cfg: `JustLog_${x}`,
			driver: logDriverOf(apps),
			concs: logConcs.map(c => ({ ...c, tourEvery: deep ? 1 : every })),
			tourLen: 60,
			walks
		})
		return [
			part('C23', ['A'], 1),
			part('C23b', ['A', 'B'], 4),
			part('C23c', ['A'], 4),
			...(deep ? [part('C23_deep', ['A', 'B'], 1)] : []),
			{
				spec: 'JustLog',
				cfg: 'JustLog_C23',
				noExplore: true,
				traceConstants: { Apps: '{"A", "B", "C"}', Keys: `{${KEYS.map(k => `"${k}"`)}}`, NcKeys: `{${NC.map(k => `"${k}"`)}}` },
				driver: logDriverOf(['A', 'B', 'C']),
				concs: logConcs,
				trace: { n: deep ? 60 : 6, len: 100, cfgs, gen }
			},
			{
				spec: 'JustLog',
				cfg: 'JustLog_C23',
				noExplore: true,
				traceConstants: { Apps: setOf(many.apps), Keys: setOf(many.keys), NcKeys: setOf(many.nc) },
				driver: logDriverOf(many.apps),
				concs: logConcs.map(c => ({ ...c, names: { ...c.names, ...names }, ids: { ...c.ids, ...subIds }, keys: many.keys })),
				trace: {
					n: deep ? 12 : 1,
					len: deep ? 600 : 250,
					cfgs: ['trace', 'info'].map(l => Object.fromEntries(many.apps.map(a => [a, l]))),
					gen: genOf(many.apps, many.keys, many.nc)
				}
			},
			{
				spec: 'JustLog',
				cfg: 'JustLog_C23',
				noExplore: true,
				traceConstants: { Apps: '{"A"}', Keys: setOf(many.keys), NcKeys: setOf(many.nc) },
				driver: logDriverOf(['A']),
				concs: logConcs.map(c => ({ ...c, ids: { ...c.ids, ...subIds }, keys: many.keys })),
				trace: { n: deep ? 12 : 1, len: 200, cfgs: [{ A: 'trace' }], gen: genOf(['A'], many.keys, many.nc) }
			}
		]
	}
}
