#!/usr/bin/env python3
"""Regenerates SPACES.md from the evidence of the last runs and the bug table of DESIGN.md
from seeded/*/meta.json and tools/caught.txt (lines 'bug | check | first line of the report')."""
import json, glob, os, re
R = '/verif'
def spaces():
    out = ['# What each quick check explores', '', 'Generated by `tools/gen_tables.py` from the evidence files of a quick run on the unchanged tree.', '']
    for l in open(R + '/properties.jsonl'):
        p = json.loads(l)
        f = f"{R}/evidence/{p['id']}.json"
        if not os.path.exists(f): continue
        e = json.load(open(f))
        out += [f"## {p['id']} {p['title']}", '', '| space | bounds | deviations | executions | states | steps |', '|---|---|---|---|---|---|']
        for s in e['coverage']['spaces']:
            b = s['bounds'].replace('|', '\\|')
            out.append(f"| {s['name']} | {b} | {s['deviation_budget']} | {s['executions']} | {s['states']} | {s['steps']} |")
        out.append('')
    open(R + '/SPACES.md', 'w').write('\n'.join(out))
def bugs():
    caught = {}
    for l in open(R + '/tools/caught.txt'):
        n, c, m = [x.strip() for x in l.split('|', 2)]
        caught[n] = (c, m)
    t = ['| planted bug | needs | caught by |', '|---|---|---|']
    for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
        n = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
        t.append(f"| {n} | {m['needs'].replace('|', chr(92)+'|')} | {caught.get(n, ('not run', ''))[0]} |")
    d = open(R + '/DESIGN.md').read()
    body = '<!-- bugs -->\n' + '\n'.join(t) + '\n<!-- /bugs -->'
    if '@BUGTABLE@' in d: d = d.replace('@BUGTABLE@', body)
    else: d = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: body, d, flags=re.S)
    open(R + '/DESIGN.md', 'w').write(d)
if __name__ == '__main__':
    spaces(); bugs()
