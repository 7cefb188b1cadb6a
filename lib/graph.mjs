// Walks over the transition relation TLC enumerated.

export function rng(seed) {
	let a = seed >>> 0 || 1
	return function () {
		a = (a + 0x6d2b79f5) | 0
		let t = Math.imul(a ^ (a >>> 15), 1 | a)
		t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t
		return ((t ^ (t >>> 14)) >>> 0) / 4294967296
	}
}
export const pick = (r, xs) => xs[Math.floor(r() * xs.length)]
export function shuffle(r, xs) {
	const a = [...xs]
	for (let i = a.length - 1; i > 0; i--) {
		const j = Math.floor(r() * (i + 1))
		;[a[i], a[j]] = [a[j], a[i]]
	}
	return a
}

function outEdges(g) {
	if (g.out) return g.out
	const out = g.nodes.map(() => [])
	g.trans.forEach((t, i) => out[t.from].push(i))
	g.out = out
	return out
}

/** Walks (from an initial state, at most maxLen steps) that together take every transition. */
export function tours(g, { maxLen = 80, seed = 1 } = {}) {
	const out = outEdges(g)
	const r = rng(seed)
	const todo = out.map(es => shuffle(r, es))
	let left = g.trans.length
	const covered = new Uint8Array(g.trans.length)
	const walks = []
	const n = g.nodes.length
	// which nodes each initial state can reach is discovered on the way
	const take = node => {
		const q = todo[node]
		while (q.length) {
			const e = q.pop()
			if (!covered[e]) return e
		}
		return -1
	}
	// nearest node with an uncovered transition
	const seen = new Int32Array(n)
	const via = new Int32Array(n)
	let mark = 0
	const bfs = (start, limit) => {
		mark++
		let frontier = [start]
		seen[start] = mark
		via[start] = -1
		for (let d = 0; d <= limit && frontier.length; d++) {
			const next = []
			for (const v of frontier) {
				while (todo[v].length && covered[todo[v][todo[v].length - 1]]) todo[v].pop()
				if (todo[v].length) {
					const path = []
					for (let x = v; via[x] !== -1; x = g.trans[via[x]].from) path.push(via[x])
					return path.reverse()
				}
				for (const e of out[v]) {
					const w = g.trans[e].to
					if (seen[w] !== mark) {
						seen[w] = mark
						via[w] = e
						next.push(w)
					}
				}
			}
			frontier = next
		}
		return undefined
	}
	const inits = g.inits
	let idle = 0
	let ii = 0
	while (left > 0 && idle < inits.length) {
		const init = inits[ii++ % inits.length]
		const walk = []
		let v = init.node
		let progress = false
		while (walk.length < maxLen) {
			let e = take(v)
			if (e === -1) {
				const p = bfs(v, walk.length ? maxLen - walk.length - 1 : 1e9)
				if (!p) break
				for (const x of p) {
					walk.push(x)
					if (!covered[x]) {
						covered[x] = 1
						left--
					}
					v = g.trans[x].to
				}
				e = take(v)
				if (e === -1) break
			}
			walk.push(e)
			covered[e] = 1
			left--
			progress = true
			v = g.trans[e].to
		}
		if (progress) {
			idle = 0
			walks.push({ init, edges: walk })
		} else idle++
	}
	return { walks, uncovered: left }
}

/** Random walks, to reach hidden implementation state that the shortest tours do not. */
export function randomWalks(g, { n, len, seed }) {
	const out = outEdges(g)
	const r = rng(seed)
	const walks = []
	for (let k = 0; k < n; k++) {
		const init = pick(r, g.inits)
		let v = init.node
		const edges = []
		// weigh by operation first so that operations with many arguments do not drown the others
		for (let i = 0; i < len && out[v].length; i++) {
			const byOp = new Map()
			for (const e of out[v]) {
				const op = g.trans[e].in.op
				if (!byOp.has(op)) byOp.set(op, [])
				byOp.get(op).push(e)
			}
			const e = pick(r, byOp.get(pick(r, [...byOp.keys()])))
			edges.push(e)
			v = g.trans[e].to
		}
		walks.push({ init, edges })
	}
	return walks
}
