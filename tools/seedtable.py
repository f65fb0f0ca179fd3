"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.json."""
import json, os, glob, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
missed = json.load(open('tools/missed.json'))
rows = ['<!-- seeds -->', '| bug | property | breaks | check |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]; m = json.load(open(f))
    c = missed.get(i)
    note = 'caught' if c is None else ('first missed; ' + c if not c.startswith('MISSED') else c)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('\n', ' ').replace('|', '/'), note))
rows.append('<!-- /seeds -->')
s = open('DESIGN.md').read()
s = s.replace('SEEDTABLE', '<!-- seeds -->\n<!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '\n'.join(rows), s, flags=re.S)
open('DESIGN.md', 'w').write(s)
print(len(rows) - 4, 'bugs')
