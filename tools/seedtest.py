#!/usr/bin/env python3
"""Try planted bugs in scratch copies: tools/seedtest.py [--notests] ID...
For each: patch applies, stable tests pass, demo 0 without / nonzero with, own check's verdict."""
import sys, os, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
notests = '--notests' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = set(stable.get('stable') or stable.get('passed'))
KNOWN_FLAKY = {'test.test_trajectory::test_traj'}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def one(i):
    d = tempfile.mkdtemp(prefix='seed-%s-' % i, dir='/tmp')
    r = dict(id=i)
    try:
        sh('cp -a /repo %s/repo && sed "s#/repo\\b#%s/repo#g;s#/opt/vp/env.sh#%s/env.sh#" /opt/vp/test.sh > %s/test.sh && sed "s#/repo\\b#%s/repo#g" /opt/vp/env.sh > %s/env.sh' % ((d,) * 6))
        repo = d + '/repo'
        sd = V + '/seeded/' + i
        sh('mkdir %s/demo && cp %s/* %s/demo && rm -f %s/demo/*.diff %s/demo/meta.json' % (d, sd, d, d, d))
        r['demo0'] = sh('bash %s/demo/demo.sh' % d, cwd=repo, timeout=300).returncode
        p = sh('git apply %s/patch.diff' % sd, cwd=repo)
        r['apply'] = p.returncode
        if p.returncode: r['out'] = p.stdout[-300:]; return r
        if 'flib' in open(sd + '/patch.diff').read() or 'dcd.f90' in open(sd + '/patch.diff').read():
            sh('. %s/env.sh; build_ext' % d)
        p = sh('bash %s/demo/demo.sh' % d, cwd=repo, timeout=300)
        r['demo1'] = p.returncode; r['demo_out'] = p.stdout[-200:]
        prop = json.load(open(sd + '/meta.json'))['property']
        e = dict(os.environ, VERIF_REPO=repo)
        p = sh('./check %s --noevidence' % prop, cwd=V, env=e) if 0 else sh('./check %s' % prop, cwd=V, env=e)
        r['check'] = p.returncode; r['check_out'] = p.stdout[:300] if p.returncode else p.stdout[-300:]
        if not notests:
            p = sh('bash %s/test.sh %s/o.json' % (d, d))
            try:
                o = json.load(open(d + '/o.json'))
                passed = set(o.get('passed', []))
                r['tests_broken'] = sorted(stable - passed - KNOWN_FLAKY)
            except Exception as ex:
                r['tests_broken'] = ['no result %s %s' % (ex, p.stdout[-300:])]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        ok = r.get('apply') == 0 and r['demo0'] == 0 and r['demo1'] != 0 and not r.get('tests_broken')
        print(r['id'], 'VALID' if ok else 'INVALID', 'CAUGHT' if r.get('check') == 1 else 'MISSED rc=%s' % r.get('check'))
        if not ok or r.get('check') != 1:
            print('   ', json.dumps(r)[:1500])
        sys.stdout.flush()
