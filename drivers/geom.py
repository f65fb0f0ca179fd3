import ctypes, math
import numpy as np
from _base import *
from pwtools import crys
from pwtools.crys import Structure, Trajectory

D = 8
SY = ['H', 'O', 'Al', 'N']
LOOK = ['C', 'Cl', 'Ca', 'Cd']
CELLS = [[[4, 0, 0], [0, 6, 0], [0, 0, 5]], [[4, 0, 0], [1, 5, 0], [-2, 1, 6]], [[5, 1, 0], [0, 4, 2], [1, 0, 6]],
         [[0, 4, 0], [6, 0, 0], [0, 0, 4]], [[8, 0, 0], [0, 8, 0], [0, 0, 8]], [[3, 0, 0], [2, 3, 0], [2, 2, 9]],
         [[6, -3, 0], [1, 7, 2], [0, 2, 5]], [[2, 0, 0], [0, 3, 0], [0, 0, 12]]]


def threads(n):
    try:
        ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)
    except OSError:
        pass


def from_mc(x):
    sy = [{'A': 'H', 'B': 'O'}[s] for s in x['sy']]
    h = sum(x['sy'].count('A') * 3 + abs(a) for r in x['cf'] for a in r)
    return dict(steps=[dict(cell=x['cell'], cf=x['cf'])], sy=sy, traj=h % 3 == 0, seed=h, what=PROP_WHAT())


def PROP_WHAT():
    return {'C15': ['scell'], 'C16': ['dist'], 'C17': ['nn'], 'C18': ['rpdf']}.get(globals().get('PROP'), ['scell', 'dist', 'nn', 'rpdf'])


def gen(rng, tier):
    out = []
    for i in range(150 if tier == 'quick' else 1200):
        nat = rng.choice([1, 2, 3, 4, 5, 6])
        traj = rng.random() < .5
        n = rng.choice([1, 2, 3, 5]) if traj else 1
        c0 = rng.choice(CELLS)
        fixed = rng.random() < .4
        lo, hi = rng.choice([(0, 7), (-8, 15), (-30, 30)])
        steps = []
        for s in range(n):
            c = c0 if fixed else rng.choice(CELLS)
            steps.append(dict(cell=c, cf=[[rng.randint(lo, hi) for k in range(3)] for a in range(nat)]))
        out.append(dict(steps=steps, sy=[rng.choice((SY if rng.random() < .8 else LOOK)[:rng.choice([1, 2, 4])]) for a in range(nat)], traj=traj, seed=rng.randrange(10**6), what=PROP_WHAT()))
    return out


def build(steps, sy, traj, lam=1.):
    """lam: the unit of length"""
    if traj:
        return Trajectory(coords_frac=np.array([s['cf'] for s in steps], dtype=float) / D,
                          cell=np.array([s['cell'] for s in steps], dtype=float) * lam, symbols=list(sy))
    return Structure(coords_frac=np.array(steps[0]['cf'], dtype=float) / D, cell=np.array(steps[0]['cell'], dtype=float) * lam, symbols=list(sy))


def ints(a, sc=1, tol=1e-8):
    a = np.asarray(a)
    if a.ndim == 0:
        return snap(a, sc, tol)
    return [ints(x, sc, tol) for x in a]


FAKE = """#!/bin/sh
for a in "$@"; do s="$a"; done
cp "$s" "%(d)s/script"
f=`sed -n 's/^ *mol new *\\([^ ]*\\) .*/\\1/p' "$s"`
o=`sed -n 's/.*open "\\([^"]*\\)" w.*/\\1/p' "$s"`
cp "$f" "%(d)s/traj"
cp "%(d)s/answer" "$o"
"""


def axsf(txt):
    """frames of an animated xsf file: cell and atoms, in order"""
    L, fr, i = txt.split('\n'), [], 0
    while i < len(L):
        w = L[i].split()
        if w[:1] == ['PRIMVEC']: fr.append(dict(cell=[[float(v) for v in q.split()] for q in L[i + 1:i + 4]], at=[])); i += 3
        elif w[:1] == ['PRIMCOORD']:
            k = int(L[i + 1].split()[0])
            fr[-1]['at'] = [q.split() for q in L[i + 2:i + 2 + k]]; i += 1 + k
        i += 1
    return fr


def gofr(rng, steps, sy, traj, evs, work, lam):
    """VMD computes the pair distribution: a program which keeps what it is given and answers with a table"""
    n = len(steps)
    d = os.path.join(work, 'vmd%d' % len(evs)); os.makedirs(d + '/tmp')
    open(d + '/vmd', 'w').write(FAKE % dict(d=d)); os.chmod(d + '/vmd', 0o755)
    ans = [[rng.randint(0, 90) for k in range(3)] for i in range(rng.choice([2, 5]))]
    open(d + '/answer', 'w').write(''.join('%d.0 %d.0 %d.0\n' % tuple(a) for a in ans))
    ortho = [all(s['cell'][i][j] == 0 for i in range(3) for j in range(3) if i != j) for s in steps]
    if rng.random() < .7 and not ortho[0]:
        steps = [dict(cell=[[4, 0, 0], [0, 6, 0], [0, 0, 5]], cf=s['cf']) for s in steps]; ortho = [True] * n
    else:
        c0 = steps[0]['cell'] if rng.random() < .6 else [[4, 0, 0], [0, 5, 0], [1, 0, 6]]
        steps = [dict(cell=c0, cf=s['cf']) for s in steps]; ortho = [c0 != [[4, 0, 0], [0, 5, 0], [1, 0, 6]]] * n
    evs.append(dict(op='set', steps=steps, sy=sy))
    kw = dict(tmpdir=d + '/tmp')
    opt = dict(first=0, last=-1, step=1, sl=True, sel=['all', 'all'], dr=0, rmax=-1, pbc=1)
    if rng.random() < .7: opt['first'] = kw['first'] = rng.randrange(n)
    if rng.random() < .6: opt['last'] = kw['last'] = rng.randrange(opt['first'], n)
    if rng.random() < .6: opt['step'] = kw['step'] = rng.choice([1, 2, 3])
    if rng.random() < .5: opt['sl'] = kw['slicefirst'] = rng.random() < .4
    if rng.random() < .6: opt['sel'] = kw['sel'] = [rng.choice(['name ' + rng.choice(sy), 'all', 'index 0 to 2']) for q in range(2)]
    if rng.random() < .7: opt['dr'] = rng.choice([1, 2, 8]); kw['dr'] = opt['dr'] / 8. * lam
    if rng.random() < .5: opt['rmax'] = rng.choice([8, 12, 31]); kw['rmax'] = opt['rmax'] / 8. * lam
    if rng.random() < .5: opt['pbc'] = kw['usepbc'] = rng.choice([0, 1])
    old, cwd = os.environ['PATH'], os.getcwd()
    os.environ['PATH'] = d + os.pathsep + old
    try: x, r = call(crys.vmd_measure_gofr, build(steps, sy, traj, lam), **kw)
    finally: os.environ['PATH'] = old
    ev = dict(op='gofr', ask=opt, exc=x, got=dict(first=-9, last=-9, step=-9, sel=[], dr=-9, rmax=-9, pbc=-9), frames=[], sy=[], ans=ans, o=[])
    if not x:
        t = open(d + '/script').read()
        import re
        g = lambda k: re.search(r'^\s*set\s+%s\s+"?([^"\n]*?)"?\s*$' % k, t, re.M).group(1)
        ev['got'] = dict(sel=[g('selstr1'), g('selstr2')], first=int(g('first')), last=int(g('last')), step=int(g('step')), dr=snap(float(g('delta')), 8 / lam if opt['dr'] else 20), rmax=snap(float(g('rmax')), 8 / lam), pbc=int(g('usepbc')))
        fr = axsf(open(d + '/traj').read())
        ev['frames'] = [dict(cell=ints(np.array(f['cell']) / lam), xyz=ints(np.array([[float(v) for v in a[1:4]] for a in f['at']]) / lam, D)) for f in fr]
        ev['sy'] = [[a[0] for a in f['at']] for f in fr]
        ev['o'] = ints(r)
    evs.append(ev)


def run(sc, work):
    rng = random.Random(sc['seed'])
    steps, sy, traj = sc['steps'], sc['sy'], sc['traj']
    evs = []
    what = sc['what']
    # neighbours and pairs are compared with radii: no rounding there
    lam = rng.choice([1., .25, .7, 1 / 3., 13.01, 1e-9, 1e6] if what[0] in ('scell', 'dist') and len(what) == 1 else [1., .25, 8., 2.**-30, 2.**20])
    obj = build(steps, sy, traj, lam)
    n, nat = len(steps), len(sy)
    struct = lambda s: build([steps[s]], sy, False, lam)
    if 'scell' in what:
        for m in range(4):
            dims = [rng.choice([1, 1, 2, 3, -2, -1] if m > 1 else [1, 2, 3]) for k in range(3)]
            kw = {}
            if rng.random() < .4: kw['direc'] = rng.choice([1, -1])
            method = 1
            if not traj and rng.random() < .5: method = kw['method'] = 2
            fn = crys.scell
            if traj and rng.random() < .3: fn = crys.scell3d
            P = abs(dims[0] * dims[1] * dims[2])
            x, r = call(fn, obj, tuple(dims) if rng.random() < .5 else list(dims), **kw)
            out = []
            if not x:
                cf, ce, xy = [np.asarray(getattr(r, a)) for a in ('coords_frac', 'cell', 'coords')]
                if r.is_struct: cf, ce, xy = cf[None], ce[None], xy[None]
                out = [dict(cell=ints(ce[i] / lam), cf=ints(cf[i], D * P), xyz=ints(xy[i] / lam, D)) for i in range(len(cf))]
            evs.append(dict(op='scell', exc=x, dims=dims, out=out, osy=list(r.symbols) if not x and r.symbols else [], traj=bool(r.is_traj) if not x else False, intraj=traj, rev=kw.get('direc', 1) == -1, opts=str(kw)))
    if 'dist' in what:
        for m in range(3):
            s = rng.randrange(n); pbc = rng.random() < .6
            sq, full = rng.random() < .5, rng.random() < .6
            threads(rng.choice([1, 2, 4]))
            o = struct(s)
            if not pbc: o.coords_frac += rng.choice([0., 1 / 3., -.7]); o.coords = np.dot(o.coords_frac, o.cell)     # somewhere else
            x, r = call(crys.distances, o, pbc=pbc, squared=sq, fullout=full)
            ev = dict(op='dist', exc=x, step=s + 1, pbc=pbc, full=full, d2=[], vec=[], frac=[])
            if not x:
                d = np.asarray(r[0] if full else r) / (lam**2 if sq else lam)
                ev['d2'] = ints(d if sq else d ** 2, D * D)
                if full: ev['vec'], ev['frac'] = ints(r[1] / lam, D), ints(r[2], D)
            evs.append(ev)
        if traj:
            for t in rng.sample([1, 2, 3, 5], 2):
                threads(t)
                pbc = rng.random() < .6
                x, r = call(crys.distances_traj, obj, pbc=pbc)
                evs.append(dict(op='disttraj', exc=x, pbc=pbc, d2=[] if x else ints((np.asarray(r) / lam) ** 2, D * D), threads=t))
        if nat > 1:
            s = rng.randrange(n); pbc = rng.random() < .6; deg = rng.random() < .5; mv = rng.choice([-500, 999, 999, 200, -7])
            kw = dict(mask_val=float(mv))
            if mv == 999 and rng.random() < .5: kw = {}
            if deg and rng.random() < .5: pass
            else: kw['deg'] = deg
            x, r = call(crys.angles, struct(s), pbc=pbc, **kw)
            ev = dict(op='angles', exc=x, step=s + 1, pbc=pbc, mask=mv, dots=[])
            if not x:
                d = np.sqrt(np.asarray(crys.distances(struct(s), pbc=pbc, squared=True)))
                r = np.asarray(r)
                d = d / lam
                c = np.where(r == mv, r, (np.cos(r * np.pi / 180) if deg else r) * d[:, :, None] * d[:, None, :] * D * D)
                ev['dots'] = ints(np.nan_to_num(c, nan=0.0), 1, 1e-7)
            evs.append(ev)
        cf = np.array(steps[0]['cf'], dtype=float) / D
        sij = cf[:, None, :] - cf[None, :, :]
        cp = rng.random() < .5
        inp = ints(sij.reshape(-1, 3), D)
        x, r = call(crys.min_image_convention, sij, copy=cp)
        evs.append(dict(op='minimg', exc=x, inp=inp, out=[] if x else ints(np.asarray(r).reshape(-1, 3), D), copy=cp, same=r is sij))
    if 'nn' in what:
        for m in range(6):
            s = rng.randrange(n); pbc = rng.random() < .6
            kw = dict(pbc=pbc)
            idx = rng.randrange(nat)
            pidx = idx if rng.random() < .8 else idx - nat
            skip = rng.choice([[], [], [sy[idx]], [rng.choice(sy)], ['Xx'], [rng.choice(sy), 'Cl'], sorted(set(sy))])
            if skip: kw['skip'] = skip if len(skip) > 1 or rng.random() < .5 else skip[0]
            cut, num = -1, -1
            if rng.random() < .5:
                cut = rng.choice([1, 8, 16, 24, 32, 40, 80, 400]); kw['cutoff'] = cut / D * lam
            else:
                num = rng.choice([0, 1, 2, 3, nat, nat + 2]); kw['num'] = num
            full = rng.random() < .6
            if rng.random() < .5: kw['sort'] = rng.random() < .3
            if full: kw['fullout'] = True
            how = rng.choice(['struct', 'dists', 'traj'])
            if how == 'struct': x, r = call(crys.nearest_neighbors, struct(s), idx=pidx, **kw)
            elif how == 'dists':
                x, r = call(crys.nearest_neighbors_from_dists, crys.distances(struct(s), pbc=pbc), sy, idx=pidx, **kw)
            else:
                d = crys.distances_traj(build(steps, sy, True, lam), pbc=pbc)[s]
                x, r = call(crys.nearest_neighbors_from_dists, d, sy, idx=pidx, **kw)
            ev = dict(op='nn', exc=x, step=s + 1, idx=idx + 1, pbc=pbc, skip=skip, cut=cut, num=num, sort=kw.get('sort', True), full=full, ret=[], dist=[])
            if not x:
                ri = r[0] if full else r
                ev['ret'] = [int(i) + 1 for i in ri]
                if full: ev['dist'] = ints((np.asarray(r[1]) / lam) ** 2, D * D) if len(r[1]) else []
            evs.append(ev)
            if how == 'struct' and not x and rng.random() < .5:
                kw.pop('fullout', None)
                x, r = call(crys.nearest_neighbors_struct, struct(s), idx=idx, **kw)
                ret = sorted(ev['ret'] + [idx + 1])
                e = dict(op='nnstruct', exc=x, step=s + 1, ret=ret, osy=[], ocf=[], ocell=[])
                if not x: e.update(osy=list(r.symbols), ocf=ints(r.coords_frac, D), ocell=ints(r.cell / lam))
                evs.append(e)
    if 'rpdf' in what:
        for m in range(3):
            st2 = [dict(cell=steps[0]['cell'], cf=s['cf']) for s in steps]      # fixed cell
            evs.append(dict(op='set', steps=st2, sy=sy))
            o = build(st2, sy, traj, lam)
            c = np.array(st2[0]['cell'])
            kw, arg = {}, o
            # selections (1-based atom numbers)
            sels = []
            how = rng.choice(['none', 'one', 'two', 'two'])
            am = []
            for q in range({'none': 0, 'one': 1, 'two': 2}[how]):
                if rng.random() < .5:
                    w = rng.choice(sy); am.append(w); sels.append([i + 1 for i in range(nat) if sy[i] == w])
                else:
                    w = np.array([rng.random() < .6 for i in range(nat)])
                    w[rng.randrange(nat)] = True
                    am.append(w); sels.append([i + 1 for i in range(nat) if w[i]])
            if how == 'none': sels = [list(range(1, nat + 1))] * 2
            if how == 'one': sels = sels * 2
            if am: kw['amask'] = am
            other = []
            form = rng.choice(['obj', 'obj', 'list1', 'list2same', 'list2'])
            if form == 'list1': arg = [o]
            if form == 'list2same': arg = [o, o]
            if form == 'list2':
                other = [[[rng.randint(-4, 12) for k in range(3)] for a in range(nat)] for s in st2]
                if rng.random() < .6:      # some atoms in the same place, in some of the steps
                    for t in range(n):
                        for a in range(nat):
                            if rng.random() < .4: other[t][a] = [v + D * rng.choice([0, 0, 1]) for v in st2[t]['cf'][a]]
                arg = [o, build([dict(cell=s['cell'], cf=f) for s, f in zip(st2, other)], sy, traj, lam)]
            pbc = rng.random() < .7
            kw['pbc'] = pbc
            dr = rng.choice([1, 2, 4, 8, 16]); kw['dr'] = dr / D * lam
            ortho = (c == np.diag(np.diag(c))).all()
            if ortho and rng.random() < .5:
                rmax = int(min(np.diag(c))) * D // 2
            else:
                rmax = rng.choice([8, 12, 20, 31, 64]); kw['rmax'] = rmax / D * lam
            used = list(range(1, n + 1))
            if rng.random() < .4:
                t = rng.choice([slice(None, None, 2), slice(1, None), slice(None, -1), -1, 0])
                if isinstance(t, int) or used[t]:
                    kw['tmask'] = np.s_[t]; used = [used[t]] if isinstance(t, int) else used[t]
            dlo = dhi = -1
            if rng.random() < .3:
                dlo = rng.choice([4, 16, 24]); z = '%r' % (dlo / D * lam)
                kw['dmask'] = rng.choice(['>= ' + z, '{d} >=' + z])
                if rng.random() < .5:
                    dhi = dlo + rng.choice([8, 20]); kw['dmask'] = '({d} >= %s) & ({d} < %r)' % (z, dhi / D * lam)
            # normalisation without coinciding atoms
            N0, N1, vmd, L = len(sels[0]), len(sels[1]), False, 1
            if rng.random() < .4:
                dups = []
                for t in used:
                    f1, f2 = st2[t - 1]['cf'], (other or [q['cf'] for q in st2])[t - 1]
                    dups.append(sum(all((u - v) % D == 0 if pbc else u == v for u, v in zip(f1[i - 1], f2[j - 1])) for i in sels[0] for j in sels[1]))
                if all(d < N0 * N1 for d in dups):
                    L = math.lcm(*[N0 * N1 - d for d in dups])
                    vmd = L < 50000
                    if vmd: kw['norm_vmd'] = True
                    else: L = 1
            x, r = call(crys.rpdf, arg, **kw)
            ev = dict(op='rpdf', exc=x, pbc=pbc, dr=dr, rmax=rmax, sel1=sels[0], sel2=sels[1], steps2=used, other=other, dlo=dlo, dhi=dhi, vmd=vmd, L=L, g=[], ni=[], r=[], opts=str(kw)[:200])
            if not x:
                ns = len(used)
                V = abs(np.linalg.det(c))
                r[:, 0] /= lam
                lo = (r[:, 0] - dr / D / 2)
                hi = lo + dr / D
                shell = 4 / 3 * np.pi * (hi ** 3 - lo ** 3)
                ev['g'] = ints(r[:, 1] / V * shell * (L if vmd else N0 * N1) * ns)
                ev['ni'] = ints(r[:, 2] * N0 * ns)
                ev['r'] = ints(r[:, 0], 2 * D)
            evs.append(ev)
        gofr(rng, steps, sy, traj, evs, work, lam)
        evs.append(dict(op='set', steps=steps, sy=sy))
        s = rng.randrange(n); c = np.array(steps[s]['cell'])
        x, r = call(crys.rmax_smith, c * lam)
        q = []
        if not x:
            cr = [np.cross(c[1], c[2]), np.cross(c[2], c[0]), np.cross(c[0], c[1])]
            z = [float((2 * r / lam) ** 2 * int(v @ v)) for v in cr]
            q = [snapr(w) for w in z]
        evs.append(dict(op='rmax', exc=x, step=s + 1, q=q, fine=bool(not x and any(abs(w - round(w)) <= 1e-10 * max(1, w) for w in z))))
    return dict(steps=steps, sy=sy), evs


if __name__ == '__main__':
    main(globals())
