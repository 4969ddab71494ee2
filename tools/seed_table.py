#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md.
import json, os, re, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
d = collections.OrderedDict()
for x in sorted(os.listdir('seeded')):
    d.setdefault(json.load(open('seeded/%s/meta.json' % x))['property'], []).append(x)
t = '| property | planted changes |\n|---|---|\n' + ''.join('| %s | %s |\n' % (q, ', '.join('`%s`' % x for x in d[q])) for q in sorted(d))
s = open('DESIGN.md').read()
s = re.sub(r'\| property \| planted changes \|\n\|---\|---\|\n(\|.*\n)*', lambda m: t, s)
open('DESIGN.md', 'w').write(s)
