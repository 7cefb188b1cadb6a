#!/usr/bin/env python3
"""Runs TLC with -coverage on every specification (the quick configurations that /verif/checks use) and lists the
expressions of transitions and properties that are never evaluated: branches the models do not take, and properties
whose conclusion is never reached. TLC does not count plain names, constants and some updates, so read what it lists. Usage: coverage.py [Spec ...]"""
import glob, os, re, subprocess, sys, tempfile, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/spec'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
specs = sys.argv[1:] or sorted(os.path.basename(f)[:-4] for f in glob.glob(f'{root}/*.tla'))
for spec in specs:
    text = open(f'{root}/{spec}.tla').read().split('\n')
    hits = {}
    cfgs = sorted(c for c in glob.glob(f'{root}/{spec}_*.cfg') if '_deep' not in c)
    for cfg in cfgs:
        tmp = tempfile.mkdtemp(prefix='jw-cov-')
        try:
            p = subprocess.Popen(['java', '-Xmx6g', '-Xss64m', '-cp', CP, 'tlc2.TLC', '-coverage', '1', '-deadlock', '-noGenerateSpecTE', '-metadir', tmp, '-workers', '2',
                                  '-config', cfg, f'{spec}.tla'], cwd=root, stdout=subprocess.PIPE, text=True)
            cur = {}
            for l in p.stdout:
                if l.startswith('@'): continue
                if 'coverage statistics' in l: cur = {}
                m = re.match(r'^\s*\|*<?.*?line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+)>?: (\d+)', l)
                if m and m[5] == spec:
                    k = tuple(int(m[i]) for i in range(1, 5))
                    cur[k] = cur.get(k, 0) + int(m[6])
                if 'rror:' in l and 'violated' in l: print(spec, cfg, l.strip())
            p.wait()
            for k, n in cur.items(): hits[k] = hits.get(k, 0) + n
        finally:
            shutil.rmtree(tmp)
    # TLC leaves out what it never evaluates: look for the branches (after =>, ->, THEN, ELSE) it does not list;
    # it lists applications of operators only, so that plain names and values cannot be told
    starts = {k[:2] for k, n in hits.items() if n > 0}
    src = '\n'.join(re.sub(r'\\\*.*$', lambda m: ' ' * len(m[0]), l) for l in text)
    src = re.sub(r'\(\*.*?\*\)', lambda m: re.sub(r'[^\n]', ' ', m[0]), src, flags=re.S)
    src = re.sub(r'"[^"\n]*"', lambda m: '"' + 's' * (len(m[0]) - 2) + '"', src)
    out, total = [], 0
    for m in re.finditer(r'(?<![<|])(=>|->|\bTHEN\b|\bELSE\b)\s+', src):
        rest = src[m.end():]
        if m[1] == '->' and re.match(r'\s*\S+\]', rest): continue  # a set of functions
        if re.match(r'("s*"|\w+|-?\d+|<<>>|\{\})\s*($|[\n,\])}]|ELSE|\[\])', rest): continue
        line = src.count('\n', 0, m.end()) + 1
        col = m.end() - (src.rfind('\n', 0, m.end()) + 1) + 1
        total += 1
        end = re.search(r'(?<![<|])(=>|->|\bTHEN\b|\bELSE\b)|\n\S|\n\s*\[\]|\n *(/\\|\\/)', rest)
        stop = m.end() + (end.start() if end and end.start() > 0 else len(rest))
        lend = src.count('\n', 0, stop) + 1
        cend = stop - (src.rfind('\n', 0, stop) + 1) + 1
        if not any((line, col) <= s < (lend, cend) for s in starts): out.append((line, col))
    print(f'{spec}: {len(cfgs)} configurations, {total} branches, {len(out)} not listed as evaluated')
    for a, b in out:
        print(f'  {a}:{b}  {text[a-1][b-1:]}')
