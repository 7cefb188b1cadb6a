// Names for histories with many parties: p1..pn, and what they stand for.
export const range = (p, n, from = 1) => Array.from({ length: n }, (_, k) => `${p}${from + k}`)
export const setOf = xs => `{${xs.map(x => `"${x}"`).join(', ')}}`

const ODD = ['ключ', '日本語', '\u{1f600}', '%2F%20', '../..', 'a\nb\tc', '{"a":1}', '"', "'", '\\', 'a:b', 'a=b&c', '<b>', '-1', '1.5', 'NaN', 'undefined', 'e\u0301', '\u00e9', 'prototype']
/** adds p<k>… up to p<n> to ids, under names that are all different */
export const more = (ids, p, n) => {
	const out = { ...ids }
	const first = Object.values(ids)[0]
	const last = `${p}${n}`
	let odd = 0
	for (const k of range(p, n)) {
		if (k in out) continue
		const j = odd++
		// two long ones differ at their ends
		const name = j === 0 || k === last ? `${String(first)} ${'long'.repeat(100)}${j || ''}` : j % 3 === 1 ? `${String(first)}${k}` : ODD[j % ODD.length]
		out[k] = Object.values(out).includes(name) ? `${name} ${k}` : name
	}
	if (new Set(Object.values(out)).size !== Object.keys(out).length) throw new Error('names are not different')
	return out
}
