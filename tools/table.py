# Writes the table of DESIGN.md from evidence/*.json (the last run of each check).
import json, glob, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
print = rows.append
print('| check | models | states | transitions | behaviours | steps | recorded traces (events) | wall s | concretizations |')
print('|---|---|---|---|---|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
    e = json.load(open(f))
    c = e['coverage']
    ms, concs = [], []
    for m in c['models']:
        n = m['model'].split('/')[1].replace('Just', '')
        if m['states'] and n not in ms: ms.append(n)
        for x in m['concretizations']:
            if x not in concs: concs.append(x)
    print(f"| {e['property']} | {', '.join(ms)} | {c['states']} | {c['transitions']} | {c['behaviours_replayed']} | {c['steps_replayed']} | {c['recorded_traces_accepted']} ({c['recorded_events']}) | {e.get('wall_s', '?')} | {', '.join(concs)} |")
rows2 = ['| planted bug | needs | what it breaks | caught by |', '|---|---|---|---|']
ALSO = {'c16-shared-memory': 'C13', 'c22-id-once': 'C21', 'c01-minus-zero': 'C03'}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    n = f.split('/')[-2]
    rows2.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {', '.join([m['property']] + ([ALSO[n]] if n in ALSO else []))} |")
D = os.path.join(HERE, 'DESIGN.md')
a, b = '<!-- table: python3 tools/table.py -->', '<!-- /table -->'
t = open(D).read()
i, j = t.index(a) + len(a), t.index(b)
a2, b2 = '<!-- seeded -->', '<!-- /seeded -->'
t = t[:i] + '\n\n' + '\n'.join(rows) + '\n\n' + t[j:]
i, j = t.index(a2) + len(a2), t.index(b2)
rows = rows2
open(D, 'w').write(t[:i] + '\n\n' + '\n'.join(rows) + '\n\n' + t[j:])
