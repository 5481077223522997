#!/usr/bin/env python3
"""Writes FAMILIES.md: what every check enumerates, and how many executions that is in each tier."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
out = ['# What each check enumerates', '', 'Written by tools/mkfamilies.py from the checks themselves. Each number is a count of executions (in C13 and C14: of scenarios, each of which is run under every schedule within its bound).', '']
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); p = d['id']
    if p not in run.PROPS: continue
    exe = f'{run.BUILD}/{run.PROPS[p][0]}/{p}/bin/{p}'
    n = {}
    for t in ('quick', 'thorough'):
        n[t] = [(x.split(None, 2) + [''])[:3] for x in subprocess.run([exe, '--prop', p, '--tier', t, '--list'], text=True, stdout=subprocess.PIPE).stdout.splitlines()]
    q = {x[0]: x[1] for x in n['quick']}
    out += [f'## {p} {d["title"]}', '', '| family | quick | thorough | executions |', '|---|---|---|---|']
    for name, k, what in n['thorough']:
        out.append(f'| {name} | {q.get(name, "-")} | {k} | {what.replace("|", "¦")} |')
    out.append(f'| **all** | {sum(int(v) for v in q.values())} | {sum(int(x[1]) for x in n["thorough"])} | |')
    out.append('')
open(V + '/FAMILIES.md', 'w').write('\n'.join(out))
