#!/usr/bin/env python3
"""Write OBLIGATIONS.md: the obligations of every check and their bounds, as the
harnesses declare them (run after changing a harness)."""
import ast, importlib.util, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))
titles = {}
for line in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8'):
    d = json.loads(line)
    titles[d['id']] = d['title']
out = ['# Obligations of every check', '',
       'Written by `tools/mkobligations.py` from the harnesses.  Tier `quick` obligations',
       'run in both tiers, `thorough` ones only in the thorough tier.  Each row is one',
       'harness function explored symbolically to the end; the bound column says what is',
       'left free and within what sizes.', '']
for pid in sorted(titles):
    path = os.path.join(VERIF, 'harness', pid.lower() + '.py')
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    spec = importlib.util.spec_from_file_location('h_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out += ['## %s %s' % (pid, titles[pid]), '', '| obligation | tier | bound |', '| --- | --- | --- |']
    for o in m.OBLIGATIONS:
        out.append('| %s | %s | %s |' % (o['name'], o.get('tier', 'quick'), str(o.get('bound', '')).replace('|', '\\|').replace('\n', ' ')))
    out.append('')
open(os.path.join(VERIF, 'OBLIGATIONS.md'), 'w', encoding='utf-8').write('\n'.join(out))
