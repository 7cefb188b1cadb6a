// Bundles the TypeScript sources of /repo's current working tree (never the built esm/ output)
// into one script, and evaluates it as often as a scenario needs a fresh set of module instances.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import vm from 'node:vm'

export const REPO = process.env.JW_REPO ?? '/repo'

const PKG = {
	app: 'frameworks/app',
	id: 'frameworks/id',
	log: 'frameworks/log',
	states: 'libraries/states',
	'presets-browser': 'presets/browser'
}
for (const n of [
	'browser',
	'browser-i18n',
	'browser-keyboard',
	'browser-preferences',
	'commands',
	'events',
	'fetch',
	'formatjs',
	'history',
	'i18n',
	'keyboard',
	'os',
	'preferences',
	'routes'
])
	PKG[n] = `plugins/${n}`

function loadEsbuild() {
	const cands = ['/opt/veriftools/node/node_modules/esbuild']
	try {
		for (const d of fs.readdirSync(`${REPO}/node_modules/.pnpm`))
			if (d.startsWith('esbuild@')) cands.push(`${REPO}/node_modules/.pnpm/${d}/node_modules/esbuild`)
	} catch {}
	const req = createRequire(import.meta.url)
	for (const c of cands)
		try {
			return req(c)
		} catch {}
	throw new Error('esbuild not found')
}

/** entry: {exportName: 'app' | 'app/testing' | ...} */
const ENTRY = {
	app: '@just-web/app',
	appTesting: '@just-web/app/testing',
	id: '@just-web/id',
	idTesting: '@just-web/id/testing',
	log: '@just-web/log',
	logTesting: '@just-web/log/testing',
	states: '@just-web/states',
	commands: '@just-web/commands',
	keyboard: '@just-web/keyboard',
	os: '@just-web/os',
	osTesting: '@just-web/os/testing',
	routes: '@just-web/routes',
	events: '@just-web/events',
	fetch: '@just-web/fetch',
	fetchTesting: '@just-web/fetch/testing',
	i18n: '@just-web/i18n',
	preferences: '@just-web/preferences',
	formatjs: '@just-web/formatjs'
}
const ENTRY_BROWSER = {
	...ENTRY,
	browser: '@just-web/browser',
	browserTesting: '@just-web/browser/testing',
	browserI18n: '@just-web/browser-i18n',
	browserKeyboard: '@just-web/browser-keyboard',
	browserPreferences: '@just-web/browser-preferences',
	history: '@just-web/history',
	historyTesting: '@just-web/history/testing',
	presets: '@just-web/presets-browser',
	presetsTesting: '@just-web/presets-browser/testing'
}

const plugin = {
	name: 'just-web-src',
	setup(b) {
		b.onResolve({ filter: /^@just-web\// }, a => {
			const m = /^@just-web\/([^/]+)(\/testing)?$/.exec(a.path)
			const dir = m && PKG[m[1]]
			if (!dir) return { errors: [{ text: `unknown package ${a.path}` }] }
			return { path: path.join(REPO, dir, m[2] ? 'src/testing/index.ts' : 'src/index.ts') }
		})
	}
}

const ENV_PARAMS = [
	'window',
	'document',
	'localStorage',
	'sessionStorage',
	'navigator',
	'location',
	'addEventListener',
	'removeEventListener',
	'globalThis',
	'global',
	'self',
	'fetch',
	'console',
	'Math',
	'setTimeout',
	'clearTimeout'
]

const cache = {}
function compile(kind) {
	if (cache[kind]) return cache[kind]
	const entry = kind === 'browser' ? ENTRY_BROWSER : ENTRY
	const src = Object.entries(entry)
		.map(([k, v]) => `import * as ${k} from ${JSON.stringify(v)}`)
		.join('\n')
	const contents = `${src}\nexport { ${Object.keys(entry).join(', ')} }\n`
	return (cache[kind] = { contents, entry })
}

export async function loadBundle(kind = 'node') {
	if (cache[kind]?.script) return cache[kind]
	const c = compile(kind)
	const esbuild = loadEsbuild()
	const out = await esbuild.build({
		stdin: { contents: c.contents, resolveDir: path.join(REPO, 'presets/browser'), loader: 'ts' },
		bundle: true,
		write: false,
		format: 'cjs',
		platform: kind === 'browser' ? 'browser' : 'node',
		target: 'es2019',
		plugins: [plugin],
		logLevel: 'silent',
		define: { 'process.env.NODE_ENV': '"test"' },
		tsconfigRaw: { compilerOptions: { useDefineForClassFields: true } }
	})
	const code = out.outputFiles[0].text
	c.script = new vm.Script(`(function(module,exports,require,${ENV_PARAMS.join(',')}){'use strict';${code}\n})`, {
		filename: `just-web-${kind}.js`
	})
	c.size = code.length
	return c
}

const nodeRequire = createRequire(import.meta.url)

const nop = () => {}
const quiet = { log: nop, info: nop, warn: nop, error: nop, debug: nop, trace: nop, group: nop, groupEnd: nop, clear: nop }

/** Evaluate the bundle: a new instance of every module in it. */
export function instantiate(bundle, env = {}) {
	const f = bundle.script.runInThisContext()
	const module = { exports: {} }
	env = { console: quiet, ...env }
	const args = ENV_PARAMS.map(p => (p in env ? env[p] : p === 'globalThis' || p === 'global' ? globalThis : globalThis[p]))
	f(module, module.exports, nodeRequire, ...args)
	return module.exports
}

let JSDOM
export function newDom(opts = {}) {
	if (!JSDOM) {
		const base = `${REPO}/node_modules/.pnpm`
		const d = fs.readdirSync(base).find(x => x.startsWith('jsdom@'))
		const req = createRequire(`${base}/${d}/node_modules/jsdom/package.json`)
		JSDOM = req('jsdom').JSDOM
		newDom.VirtualConsole = req('jsdom').VirtualConsole
		newDom.ResourceLoader = req('jsdom').ResourceLoader
	}
	const { userAgent, url = 'https://app.test/', ...rest } = opts
	const virtualConsole = new newDom.VirtualConsole()
	const resources = userAgent ? new newDom.ResourceLoader({ userAgent }) : undefined
	return new JSDOM('<!doctype html><html><body></body></html>', {
		url,
		virtualConsole,
		...(resources ? { resources } : {}),
		pretendToBeVisual: false,
		...rest
	})
}

/** the globals a browser bundle sees, taken from a jsdom window */
export function domEnv(dom, over = {}) {
	const w = dom.window
	const g = Object.create(globalThis)
	const fetch = over.fetch ?? (async () => ({ ok: true }))
	Object.defineProperty(g, 'fetch', { value: fetch, configurable: true, writable: true })
	Object.defineProperty(g, 'window', { value: w, configurable: true })
	Object.defineProperty(g, 'document', { value: w.document, configurable: true })
	Object.defineProperty(g, 'navigator', { value: w.navigator, configurable: true })
	return {
		window: w,
		document: w.document,
		localStorage: w.localStorage,
		sessionStorage: w.sessionStorage,
		navigator: w.navigator,
		location: w.location,
		addEventListener: w.addEventListener,
		removeEventListener: w.removeEventListener,
		globalThis: g,
		global: g,
		self: w,
		fetch,
		...over
	}
}
