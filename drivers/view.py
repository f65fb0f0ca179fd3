import glob, hashlib, io as sio, sys, time
import numpy as np
from _base import *
from pwtools import visualize, io, crys, common, calculators

WORKERS = 8
STUB = '''#!/bin/sh
# a viewer which only writes down what it was asked to show
n=$(mktemp -d "$REC/rXXXXXX")
basename "$0" > $n/prog
for a in "$@"; do printf '%s\\n' "$a" >> $n/args; last="$a"; done
cp "$last" $n/text
echo out
echo err >&2
touch $n/began
if [ -e "$REC/hold" ]; then
    i=0
    while [ -e "$REC/hold" ] && [ $i -lt 200 ]; do sleep .05; i=$((i+1)); done
fi
touch $n/over
[ ! -e "$REC/fail" ]
'''
VS = ['view_xcrysden', 'view_vmd_axsf', 'view_vmd_xyz', 'view_jmol', 'view_avogadro', 'custom']


def from_mc(x):
    return dict(ops=x, seed=sum((i + 1) * len(repr(o)) for i, o in enumerate(x)))


def gen(rng, tier):
    res = []
    for k in range(24 if tier == 'quick' else 400):
        ops = []
        for i in range(rng.randint(2, 6)):
            q = rng.random()
            if q < .65:
                ops.append(dict(op='view', v=rng.choice(VS), traj=rng.random() < .35, keep=rng.random() < .4, bg=rng.random() < .3, fail=rng.random() < .12, disp=rng.random() < .3, nosym=rng.random() < .2, sfile=rng.choice(['', '', 's']), lfile=rng.choice(['', '', 'l'])))
            elif q < .72: ops.append(dict(op='done'))
            elif q < .84: ops.append(dict(op='backtick'))
            elif q < .92: ops.append(dict(op='system'))
            else: ops.append(dict(op='find'))
        res.append(dict(ops=ops, seed=rng.randrange(10**6)))
    return res


def obj(rng, traj, nosym):
    n = rng.randint(1, 4)
    kw = dict(cell=np.diag([rng.randint(3, 9) / 2. for i in range(3)]) + np.array([[0, 0, 0], [rng.randint(-2, 2) / 4., 0, 0], [0, 0, 0]]))
    if not nosym: kw['symbols'] = [rng.choice(['H', 'Al', 'N', 'Zr']) for i in range(n)]
    r = np.random.RandomState(rng.randrange(10**6))
    if traj:
        m = rng.randint(1, 4)
        return crys.Trajectory(coords_frac=r.rand(m, n, 3), **dict(kw, cell=np.array([kw['cell']] * m)))
    if rng.random() < .3: kw['forces'] = r.rand(n, 3)
    return crys.Structure(coords_frac=r.rand(n, 3), **kw)


def image(o):
    h = hashlib.md5()
    for a in sorted(o.attr_lst):
        if a == 'symbols' or a.startswith('symbols') or a.startswith('order') or a in ('mass', 'nspecies', 'ntypat', 'natoms_sel', 'znucl', 'znucl_unique', 'typat'): continue
        v = getattr(o, a, None)
        h.update(repr((a, None if v is None or callable(v) else np.asarray(v).tolist())).encode())
    return h.hexdigest()


def dat(fn, o):
    common.file_write(fn, 'custom %r\n' % (np.asarray(o.coords).tolist(),))


def wait_for(f, t=10):
    t0 = time.time()
    while time.time() - t0 < t:
        if f(): return True
        time.sleep(.01)
    return False


def files(tmp): return sorted(os.listdir(tmp))


def nfd(): return len(os.listdir('/proc/self/fd'))


def run(sc, work):
    rng = random.Random(sc['seed'])
    R, evs = rng.choice, []
    rec, tmp, bn, ref = (os.path.join(work, x) for x in ('rec', 'tmp', 'bin', 'ref'))
    for d in (rec, tmp, bn, ref): os.makedirs(d)
    progs = ['xcrysden', 'vmd', 'jmol', 'avogadro', 'custom']
    for p in progs:
        with open(os.path.join(bn, p), 'w') as fh: fh.write(STUB)
        os.chmod(os.path.join(bn, p), 0o755)
    oldpath = os.environ['PATH']
    os.environ['PATH'] = bn + ':/usr/bin:/bin'
    os.environ['REC'] = rec
    hold, failf = os.path.join(rec, 'hold'), os.path.join(rec, 'fail')
    seen = set()
    recs = lambda: sorted(glob.glob(rec + '/r*'))
    running = []

    def done():
        if os.path.exists(hold): os.remove(hold)
        wait_for(lambda: all(os.path.exists(r + '/over') for r in running))
        evs.append(dict(op='done', over=sum(os.path.exists(r + '/over') for r in running), left=files(tmp)))
        del running[:]
    try:
        for no, o in enumerate(sc['ops']):
            o = dict(o)
            if o['op'] == 'view' and not o['bg'] and os.path.exists(hold): done()
            if o['op'] == 'view':
                st = obj(rng, o['traj'], o['nosym'])
                V = visualize.ViewFactory(cmd='custom a1', suffix='.dat', writer=dat) if o['v'] == 'custom' else getattr(visualize, o['v'])
                single = o['v'] in ('view_jmol', 'view_avogadro')
                suf, wr = dict(custom=('dat', dat), view_vmd_xyz=('xyz', io.write_xyz)).get(o['v'], ('cif', io.write_cif) if single else ('axsf', io.write_axsf))
                natoms = st.natoms
                want, symwant = '', list(st.symbols) if st.symbols is not None else ['H'] * natoms
                if not (single and o['traj']):
                    c = st.copy()
                    if c.symbols is None: c.symbols = list(symwant)
                    f = os.path.join(ref, 'x.' + suf)
                    wr(f, c)
                    want = hashlib.md5(open(f, 'rb').read()).hexdigest()
                elif o['nosym']: symwant = []
                opts = R([[], [], ['-e', 'script.tcl'], ['-nt']])
                sfile = 'mine.' + suf if o['sfile'] else ''
                lfile = 'mine.log' if o['lfile'] else ''
                kw = dict(tmpdir=tmp)
                if sfile: kw['structfile'] = os.path.join(tmp, sfile)
                if lfile: kw['logfile'] = os.path.join(tmp, lfile)
                if opts: kw['options'] = ' '.join(opts)
                if o['keep']: kw['keepfiles'] = True
                if o['bg']: kw.update(R([dict(bg=True), dict(wait=False, keepfiles=True)]))
                if o['disp']: kw['disp'] = True
                # a pipe into tee hides the exit status
                o['fail'] = o['fail'] and not o['disp']
                if o['fail']: open(failf, 'w').close()
                if o['bg']: open(hold, 'w').close()
                before, img, fd0 = set(files(tmp)), image(st), nfd()
                cap = os.path.join(work, 'stdout')
                sys.stdout.flush()
                sv = os.dup(1); fh = os.open(cap, os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(fh, 1); os.close(fh)
                try: x, _ = call(V, st, **kw)
                finally:
                    sys.stdout.flush(); os.dup2(sv, 1); os.close(sv)
                fds = nfd() - fd0
                if o['bg'] and not x: wait_for(lambda: any(os.path.exists(r + '/began') for r in recs() if r not in seen), 10)
                new = [r for r in recs() if r not in seen]
                seen |= set(new)
                L = []
                for r in new:
                    a = open(r + '/args').read().split('\n')[:-1]
                    L.append(dict(prog=open(r + '/prog').read().strip(), args=a[:-1], file=os.path.basename(a[-1]) if a else '', suf=a[-1].split('.')[-1] if a else '',
                                  text=hashlib.md5(open(r + '/text', 'rb').read()).hexdigest() if os.path.exists(r + '/text') else 'none', over=os.path.exists(r + '/over')))
                if o['bg']: running += new
                left = files(tmp)
                logs = [f for f in left if (f not in before or f == lfile) and f != sfile and not f.startswith('pwtools_view_struct_')]
                if o['bg'] and new: wait_for(lambda: all('err' in open(os.path.join(tmp, f)).read() for f in logs), 5)
                t = [dict(f=f if f == lfile else 'log', t=open(os.path.join(tmp, f)).read().strip().replace('\n', ' ')) for f in logs]
                evs.append(dict(o, sfile=sfile, lfile=lfile, exc=x, recs=L, left=left, logs=t, fds=fds, options=opts, want=want, kept=image(st) == img,
                                shown='out\n' in open(cap).read().replace('object has no symbols', ''), sym=list(st.symbols) if st.symbols is not None else [], symwant=symwant))
                if o['fail']: os.remove(failf)
            elif o['op'] == 'done':
                done()
            elif o['op'] == 'backtick':
              for out in ['', 'a  ', ' x y \n', 'z' * 70000] if TIER == 'thorough' else [R(['', 'a', 'a\nb\n\n', 'z' * 70000]), R([' x y \n', '\tb  '])]:
                err = R(['', '', ' ', 'bad'])
                x, r = call(common.backtick, "printf '%%s' '%s'; printf '%%s' '%s' >&2; exit %d" % (out, err, R([0, 0, 3])))
                evs.append(dict(o, out=hashlib.md5(out.encode()).hexdigest(), err=err.strip(), exc=x, res=hashlib.md5(r.encode()).hexdigest() if isinstance(r, str) else ''))
            elif o['op'] == 'system':
                rc = R([0, 0, 1, 3, 127])
                f = os.path.join(work, 'sys%d' % no)
                x, _ = call(common.system, 'echo x >> %s; exit %d' % (f, rc), **R([{}, dict(wait=True)]))
                evs.append(dict(o, rc=rc, exc=x, ran=len(open(f).readlines()) if os.path.exists(f) else 0))
            else:
                names = [R(progs + ['no_such_a', 'no_such_b', 'no_such_c']) for i in range(rng.randint(1, 4))]
                one = len(names) == 1 and rng.random() < .6
                x, r = call(calculators.find_exe, names[0] if one else R([names, tuple(names)]))
                ok = r is None or os.path.dirname(r) == bn
                evs.append(dict(o, names=names, have=progs, exc=x, res='' if r is None else os.path.basename(r) if ok else r))
        if running: done()
    finally:
        if os.path.exists(hold): os.remove(hold)
        wait_for(lambda: all(os.path.exists(r + '/over') for r in running))
        os.environ['PATH'] = oldpath
    return {}, evs


if __name__ == '__main__':
    main(globals())
