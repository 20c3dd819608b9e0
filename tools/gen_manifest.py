#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(ROOT, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    r = json.loads(line)
    pid = r['id']
    f = os.path.join(ROOT, 'checks', pid.lower()+'.py')
    if pid in NA or not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(
            pid, 'check not built yet')))
        continue
    m = ast.parse(open(f).read())
    doc = ' '.join(ast.get_docstring(m).split())
    tech = 'runtime monitoring: '
    note = ''
    for n in m.body:
        if isinstance(n, ast.Assign):
            if n.targets[0].id == 'TECHNIQUE':
                tech += ast.literal_eval(n.value)
            if n.targets[0].id == 'ASSUMPTIONS':
                note = ' Assumes: ' + '; '.join(ast.literal_eval(n.value))
    if tech.endswith(': '):
        tech += ('model-based oracle over generated histories and inputs '
                 'driving the real code')
    checks.append(dict(
        property=pid, quick_cmd=f'python3 run.py {pid} --tier quick',
        thorough_cmd=f'python3 run.py {pid} --tier thorough',
        technique=tech, level='exploration',
        level_note='Held on the executions observed, nothing more. '
        + doc + note))
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
           not_applicable=na,
           hooks=dict(guard='none', enable='no hooks are needed: monitors '
                      'attach from the harness to the public interface',
                      source_commits=[]),
           notes='Known findings and repairs: known_findings.json. '
           'Run a check with python3 run.py <id>; replay a violation with '
           '--replay <file>.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
