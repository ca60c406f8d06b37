#!/usr/bin/env python3
"""table.py: rewrites the table at the end of DESIGN.md from seeded/*/meta.json
and the lines of tools/seeded.sh (given on standard input; they add the number
of runs it took)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
took = {}
for line in sys.stdin:
    m = re.match(r'(\S+) (\S+) exit (\d+) (VIOLATION\b.*?)?\((\d+) runs', line)
    if m:
        took[m[1]] = int(m[5]) if m[3] == '1' and m[4] else 'missed'
    elif (m := re.match(r'(\S+) (\S+) exit (\d+) (VIOLATION)?', line)):
        took[m[1]] = '–' if m[3] == '1' else 'missed'
rows = ['| planted bug | caught by | after runs | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    p = root + '/seeded/' + d + '/meta.json'
    if os.path.exists(p):
        m = json.load(open(p))
        t = took.get(d, '–')
        rows.append('| %s | %s | %s | %s |' % (d, m['property'] if t != 'missed' else 'none', t, m['needs'].replace('|', '/').replace('\n', ' ')))
s = open(root + '/DESIGN.md').read()
i = s.index('\n## Which checks catch')
j = s.index('\n(table)', i) if '\n(table)' in s[i:] else s.index('\n| planted bug', i)
open(root + '/DESIGN.md', 'w').write(s[:j] + '\n' + '\n'.join(rows) + '\n')
