#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: fixed text below + per-property table from checks/ and the seeded catch table."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
DETAIL = json.load(open(os.path.join(HERE, 'tools', 'design_detail.json')))


def main():
    out = [HEAD, '\n## 3. Property by property\n']
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        h = importlib.import_module('checks.' + i.lower())
        q, t = h.cases('quick'), h.cases('thorough')
        d = DETAIL.get(i, {})
        out.append('### %s %s\n' % (i, p['title']))
        out.append('- **Decided how**: %s' % h.EXPLANATION.strip())
        if d.get('oracle'):
            out.append('- **Oracle and modelling**: %s' % d['oracle'])
        out.append('- **Bounds**: %s. Quick: %d cases; thorough: %d cases.' % (h.BOUNDS.strip().rstrip('.'), len(q), len(t)))
        out.append('- **Outside**: %s.' % h.OUTSIDE.strip().rstrip('.'))
        if d.get('why'):
            out.append('- **Beyond the tests**: %s' % d['why'])
        out.append('')
    out.append(TAIL)
    rows = ['\n## 7. Planted changes (`seeded/`) and what catches them\n',
            'All of them build, pass the 39 stable tests and come with a demonstration. Each was caught by the check of its property when it was last run (exit 1, VIOLATION, replayed on the real code); '
            'the last column tells which ones a check missed when first planted and what was done.\n',
            '| change | property | needs | note |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), DETAIL.get('missed', {}).get(n, '')))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out + rows) + '\n')


main()
