"""Writes DESIGN.md: design_head.md, one section per property (from MANIFEST.json and design_notes below), design_tail.md."""
import json, re, os, glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
M = json.load(open('MANIFEST.json')); P = {}
for l in open('properties.jsonl'):
    d = json.loads(l); P[d['id']] = d
notes = {}
for b in re.split(r'^## ', open('tools/design_notes.md').read(), flags=re.M)[1:]:
    h, _, t = b.partition('\n'); notes[h.strip()] = t.strip()
out = [notes['head'], '', '## Properties', '']
for c in M['checks']:
    i = c['property']; p = P[i]
    out += [f"### {i} {p['title']}", '', f"*Decided by* ({c['technique']}): {c['level_note']}", '']
    if i in notes: out += [notes[i], '']
    out += [f"*Why tests cannot settle it*: {p['why_tests_cant']}; the property ranges over {p['quantifier']['text']}.", '']
out += ['## Not applicable', '']
for n in M['not_applicable']:
    i = n['property']; out += [f"* **{i}** {P[i]['title']}: {n['reason']}.", '']
out += [notes['tail'], '', '## Planted changes and the checks that catch them', '', '| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); out.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
out += ['', 'Besides these, `selftest/cNN.txt` holds, per property, small mutants (`| bad`) and behaviour-preserving',
        'refactorings (`| ok`); `tools/mut.py selftest/cNN.txt` applies each to a scratch copy and compares the verdict.', '']
n = {}
for f in sorted(glob.glob('selftest/c*.txt')):
    s = open(f).read()
    n[os.path.basename(f)[:3].upper()] = (len(re.findall(r'^### .*\| *bad', s, re.M)), len(re.findall(r'^### .*\| *ok', s, re.M)))
out += ['| property | mutants reported | refactorings quiet |', '|---|---|---|'] + [f'| {k} | {a} | {b} |' for k, (a, b) in n.items()] + ['']
open('DESIGN.md', 'w').write('\n'.join(out))
