"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(p)); rows.append('| %s | %s |' % (os.path.basename(os.path.dirname(p)), d['needs'].replace('|', '/').replace('\n', ' ')))
s = open(V + '/DESIGN.md').read()
i = s.index('| change | what it needs |'); j = s.index('\n\n', i)
s = s[:i] + '| change | what it needs |\n|---|---|\n' + '\n'.join(rows) + s[j:]
open(V + '/DESIGN.md', 'w').write(s)
