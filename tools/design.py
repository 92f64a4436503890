#!/usr/bin/env python3
"""Appends the per-property section of DESIGN.md from the checks themselves (prints it)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
print('## Properties\n')
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module(p['id'].lower())
    print('### %s %s\n' % (p['id'], p['title']))
    print('*Property:* ' + p['statement'] + '\n')
    print('*Workload, monitor and oracle:* ' + m.RULE + '\n')
    print('*Stages:* ' + '; '.join('%s (%d chunks quick, %d thorough%s)' % (s.name, s.quick, s.thorough, ', %d executions each' % s.per if hasattr(s, 'per') else '') for s in m.STAGES) + '.\n')
    if getattr(m, 'ASSUMPTIONS', None):
        print('*Assumes:* ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    print('*Why tests cannot reach it:* ' + p['why_tests_cant'] + '\n')
