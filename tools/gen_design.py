#!/usr/bin/env python3
"""Assembles DESIGN.md from its parts, the checks and the planted bugs."""
import ast
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(ROOT, *p)) as fh:
        return fh.read()


def lit(m, name):
    for n in m.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


out = [read('tools', 'design_head.md')]
NA = {}
if os.path.exists(os.path.join(ROOT, 'tools', 'not_applicable.json')):
    NA = json.loads(read('tools', 'not_applicable.json'))
try:
    TIMES = json.loads(read('tools', 'times.json'))
except FileNotFoundError:
    TIMES = {}
for line in read('properties.jsonl').splitlines():
    r = json.loads(line)
    out.append(f"### {r['id']} {r['title']}\n")
    f = os.path.join(ROOT, 'checks', r['id'].lower()+'.py')
    if r['id'] in NA or not os.path.exists(f):
        out.append('Not claimed: ' + NA.get(r['id'], 'check not built yet')
                   + '.\n')
        continue
    m = ast.parse(open(f).read())
    out.append('*Runs and oracle.* ' + ' '.join(
        ast.get_docstring(m).split()) + '\n')
    sc = []
    for n in m.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(
                    d.func, 'id', '') == 'scenario':
                k = {a.arg: ast.unparse(a.value) for a in d.keywords}
                doc = (ast.get_docstring(n) or '').split('\n\n')[0]
                sc.append(f"  * `{n.name}` ({k.get('quick')} / "
                          f"{k.get('thorough')} cases): "
                          + ' '.join(doc.split()))
    out.append('*Scenarios (quick / thorough cases).*\n\n' + '\n'.join(sc)
               + '\n')
    q = lit(m, 'REQUIRED')
    if q:
        out.append('*Must have been observed at least (quick).* ' + ', '.join(
            f'{k} {v}' for k, v in q.items()) + '\n')
    q = lit(m, 'ASSUMPTIONS')
    if q:
        out.append('*Bounds and assumptions.* ' + '; '.join(q) + '.\n')
    if r['id'] in TIMES:
        out.append(f"*Cost.* about {TIMES[r['id']]} s (quick).\n")
    out.append('*Beyond the tests.* ' + r['why_tests_cant'] + '\n')
k = json.loads(read('known_findings.json'))
out.append('## Genuine defects found\n\nRepaired in /repo (one "fix:" commit '
           'each; the checks report them again on the original tree):\n')
out += ['* ' + x for x in k['fixed']]
out.append('\nRecorded, not repaired:\n')
out += ['* ' + json.dumps(x) for x in k['known']] or ['* none']
out.append('\n## Planted bugs\n\nEach applies to /repo, keeps the 539 tests '
           'passing and has a demonstration; "found by" is what the quick '
           'check of the property reported.\n')
out.append('| planted bug | needs | breaks | found by |\n|---|---|---|---|')
try:
    caught = json.loads(read('tools', 'caught.json'))
except FileNotFoundError:
    caught = {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(d))
    j = json.load(open(d))
    out.append(f"| {b} | {j['needs']} | {j['what_it_breaks']} | "
               f"{caught.get(b, '')} |")
out.append('\n' + read('tools', 'design_tail.md'))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(out))
