#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a python description file (dict list SEEDS):
id, property, needs, breaks, edits=[(file, old, new)], demo (python source)."""
import sys, os, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = tempfile.mkdtemp(dir='/tmp')
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (d, d), shell=True, check=True)
    for f, old, new in s['edits']:
        p = os.path.join(d, f if '/' in f else 'src/pwtools/' + f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run('git diff', shell=True, cwd=d, stdout=subprocess.PIPE, text=True).stdout
    o = os.path.join(V, 'seeded', s['id'])
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the guarantee holds, nonzero: broken\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\n'
        'work=$(mktemp -d) || exit 9\ntrap \'rm -rf "$work"\' EXIT\ncd "$work"\n'
        'REPO=$repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$repo/src /opt/venv/bin/python "$here/demo.py"\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    print('made', s['id'])
