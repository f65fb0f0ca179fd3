import math
import numpy as np
from _base import *
from pwtools import crys, num
from pwtools.crys import Structure, Trajectory
from geom import ints, build, CELLS, SY

D, Q = 8, 4
FR = [[[1, 2, 2], [2, 1, -2]], [[3, 4, 0], [-4, 3, 0]], [[2, 3, 6], [3, -6, 2]], [[0, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 0, 0]],
      [[2, -2, 1], [1, 2, 2]], [[0, 3, 4], [5, 0, 0]], [[6, 2, -3], [2, 3, 6]]]


def basis(rng, m, unit):
    while True:
        b = [[rng.randint(-2, 2) for j in range(m)] for i in range(m)]
        d = round(np.linalg.det(b))
        if d != 0 and (not unit or abs(d) in (1, 2, 4)):
            return b


def from_mc(x):
    return dict(kind='trans', old=x['old'], new=x['new'], inp=[x['v'], [-a for a in x['v']]], seed=sum(abs(a) for a in x['v']))


def gen(rng, tier):
    out = []
    for i in range(80 if tier == 'quick' else 600):
        m = rng.choice([1, 2, 3, 3, 4])
        n = rng.choice([1, 1, 2, 4, 6])
        out.append(dict(kind='trans', old=basis(rng, m, False), new=basis(rng, m, True), seed=rng.randrange(10**6),
                        inp=[[rng.randint(-20, 20) for k in range(m)] for a in range(n)]))
    for i in range(80 if tier == 'quick' else 600):
        m, ns, nv = rng.choice([2, 3, 3]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5])
        out.append(dict(kind='trans3d', old=[basis(rng, m, False) for t in range(ns)], new=[basis(rng, m, True) for t in range(ns)], seed=rng.randrange(10**6),
                        inp=[[[rng.randint(-20, 20) for k in range(m)] for a in range(nv)] for t in range(ns)]))
    for i in range(150 if tier == 'quick' else 1000):
        nat = rng.choice([1, 2, 3, 5])
        traj = rng.random() < .5
        n = rng.choice([1, 2, 3, 5]) if traj else 1
        c0 = rng.choice(CELLS); fixed = rng.random() < .4
        out.append(dict(kind='obj', traj=traj, sy=[rng.choice(SY) for a in range(nat)], seed=rng.randrange(10**6),
                        steps=[dict(cell=c0 if fixed else rng.choice(CELLS), cf=[[rng.randint(-20, 20) for k in range(3)] for a in range(nat)]) for s in range(n)]))
    return out


def sh(a):
    return [int(x) for x in np.asarray(a).shape]


UNITS = [1, 1, .7, 1 / 3, 13.01, 1e-9, 1e6]


def image(r, n, cfac=1, lam=1):
    def lst(a, f):
        a = np.asarray(a)
        return [ints(x, f, 1e-8) for x in (a if r.is_traj else a[None])]
    cell, cf, xyz = lst(r.cell if lam == 1 else r.cell / lam, cfac), lst(r.coords_frac, D), lst(r.coords if lam == 1 else r.coords / lam, D * cfac)
    return dict(sy=list(r.symbols), steps=[dict(cell=c, cf=f, xyz=x) for c, f, x in zip(cell, cf, xyz)])


def run(sc, work):
    rng = random.Random(sc['seed'])
    evs = []
    if sc['kind'] == 'trans':
        m, n = len(sc['old']), len(sc['inp'])
        l1, l2 = rng.choice(UNITS), rng.choice(UNITS)
        old, new = np.array(sc['old'], dtype=float) * l1, np.array(sc['new'], dtype=float) * l2
        for rep in range(3):
            # shapes (..., M) with the M axis moved anywhere
            base = np.array(sc['inp'], dtype=float) / D
            fac = [s for s in ((n,), (1, n), (n, 1), (n, 1, 1), (2, n // 2) if n % 2 == 0 else (n,), (n // 2, 1, 2) if n % 2 == 0 else (1, n))]
            lead = rng.choice(fac + ([()] if n == 1 else []))
            a = base.reshape(lead + (m,))
            ax = rng.randrange(a.ndim)
            a = np.array(np.moveaxis(a, -1, ax))
            isint = rng.random() < .2
            if isint: a = (a * D).astype(int)
            if rng.random() < .3: a = np.asfortranarray(a)
            axis = rng.choice([ax, ax - a.ndim])
            kw = {} if axis in (-1,) and rng.random() < .5 else dict(axis=axis)
            cp = True if isint else rng.random() < .7
            a0 = a.copy()
            # give old/new as rows also in other memory layout
            x, r = call(crys.coord_trans, a, old=old if rng.random() < .5 else np.asfortranarray(old), new=new, copy=cp, **kw)
            vecs = lambda z, f: [ints(np.moveaxis(np.asarray(z), ax, -1).reshape(-1, m) * (1.0 / D if isint else 1), f)]
            ev = dict(op='trans', exc=x, inp=[sc['inp']], old=[sc['old']], new=[sc['new']], out=[], back=[], shape=[], inshape=sh(a0), copy=cp, changed=False)
            if not x:
                ev['out'], ev['shape'] = vecs(r * (l2 / l1) if l1 != l2 else r, D * Q), sh(r)
                same = np.array_equal(a, a0)
                ev['changed'] = (not same) or (not cp and np.array_equal(np.asarray(r), a0))
                y, b = call(crys.coord_trans, r, old=new, new=old, **kw)
                if not y: ev['back'] = vecs(b, D)
            evs.append(ev)
        return dict(steps=[], sy=[]), evs
    if sc['kind'] == 'trans3d':
        inp = np.array(sc['inp'], dtype=float) / D                # (T, N, M)
        l1, l2 = rng.choice(UNITS), rng.choice(UNITS)
        old, new = np.array(sc['old'], dtype=float) * l1, np.array(sc['new'], dtype=float) * l2
        for rep in range(3):
            ax = rng.choice([0, 1])                # position of M after the time axis is removed
            t = rng.choice([0, 1, 2])
            a = np.moveaxis(inp, -1, 1 + ax)
            f = lambda z: np.array(np.moveaxis(z, 0, t))
            A, O, N = f(a), f(old), f(new)
            ta = rng.choice([t, t - 3])
            kw = dict(axis=rng.choice([ax, ax - 2]))
            if ta or rng.random() < .5: kw['timeaxis'] = ta
            cp = rng.random() < .7
            A0 = A.copy()
            x, r = call(crys.coord_trans3d, A, old=O, new=N, copy=cp, **kw)
            g = lambda z, fac: [ints(np.moveaxis(np.moveaxis(np.asarray(z), t, 0), 1 + ax, -1)[i], fac) for i in range(len(inp))]
            ev = dict(op='trans', exc=x, inp=sc['inp'], old=sc['old'], new=sc['new'], out=[], back=[], shape=[], inshape=sh(A0), copy=cp, changed=False, opts=str(kw))
            if not x:
                ev['shape'] = sh(r)
                if sh(r) == sh(A0):
                    ev['out'] = g(r * (l2 / l1) if l1 != l2 else r, D * Q)
                    ev['changed'] = (not np.array_equal(A, A0)) or (not cp and np.array_equal(np.asarray(r), A0))
                    y, b = call(crys.coord_trans3d, r, old=N, new=O, **kw)
                    if not y: ev['back'] = g(b, D)
            evs.append(ev)
        return dict(steps=[], sy=[]), evs
    for rep in range(3):
        full = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-3, 4), (3, -4), (-4, -3), (4, 3)]
        ph, th, ps = [rng.choice(full) for i in range(3)]
        ang = [math.atan2(s, c) for c, s in (ph, th, ps)]
        for i in (0, 2):        # also beyond pi
            if ang[i] < 0 and rng.random() < .6: ang[i] += 2 * math.pi
            elif ang[i] > 0 and rng.random() < .2: ang[i] -= 2 * math.pi
        ok = rng.random() < .85
        if not ok:
            i = rng.randrange(3)
            ang[i] = rng.choice([-1, 1]) * (abs(ang[i]) + 2 * math.pi + .01)
        deg = rng.random() < .6
        if deg: ang = [round(a, 0) if abs(a - round(a)) < 1e-9 else a for a in map(math.degrees, ang)]
        kw = dict(deg=True) if deg else {} if rng.random() < .5 else dict(deg=False)
        x, r = call(num.euler_matrix, *ang, **kw)
        evs.append(dict(op='euler', phi=ph, theta=th, psi=ps, range=ok, exc=x, out=[] if x else ints(r, 125), opts=str(ang)))
    steps, sy, traj = sc['steps'], sc['sy'], sc['traj']
    n = len(steps)
    nat = len(sy)
    for rep in range(4):
        lam = rng.choice(UNITS)
        obj = build(steps, sy, traj, lam)
        op = rng.choice(['wrap', 'center', 'align', 'align', 'wrapc', 'wraptiny'])
        if op in ('wrap', 'wrapc'):
            mask = [rng.random() < .6 for k in range(3)] if rng.random() < .5 else [True] * 3
            kw = {} if all(mask) and rng.random() < .5 else dict(mask=mask)
        if op == 'wrapc':
            arr = np.array(obj.coords_frac)
            flat = ints(arr.reshape(-1, 3), D)
            ax = rng.randrange(arr.ndim)
            A = np.array(np.moveaxis(arr, -1, ax))
            if A.shape[ax] != 3: continue
            cp = rng.random() < .5
            if ax != A.ndim - 1 or rng.random() < .5: kw['xyz_axis'] = rng.choice([ax, ax - A.ndim])
            x, r = call(crys.pbc_wrap_coords, A, copy=cp, **kw)
            if not cp and not x: r = A
            evs.append(dict(op='wrapc', exc=x, inp=flat, mask=mask, out=[] if x else ints(np.moveaxis(np.asarray(r), ax, -1).reshape(-1, 3), D), shape=[] if x else sh(r), inshape=sh(A)))
            continue
        if op == 'wraptiny':
            v = np.array([[-1e-17, -1e-300, 1 - 1e-16], [-5e-17, 3 - 1e-17, -2.0]]) * rng.choice([1, .5])
            x, r = call(crys.pbc_wrap_coords, v)
            evs.append(dict(op=op, exc=x, ok=bool(x == '' and (r >= 0).all() and (r < 1).all())))
            continue
        if op in ('wrap', 'center'):
            cp = rng.random() < .6
            if op == 'center':
                idx = rng.randrange(nat); kw = dict(idx=rng.choice([idx, idx - nat]))
            x, r = call(crys.pbc_wrap if op == 'wrap' else crys.center_on_atom, obj, copy=cp, **kw)
            ev = dict(op=op, exc=x, kept=True, out=dict(sy=[], steps=[]), mask=mask if op == 'wrap' else [], idx=idx + 1 if op == 'center' else 0)
            if not x:
                ev['out'] = image(r if cp else obj, n, 1, lam)
                ev['kept'] = bool(r.is_traj) == traj
            evs.append(ev)
            continue
        X, Y = [list(v) for v in rng.choice(FR)]
        q = round(np.sqrt(np.dot(X, X))); p = round(np.sqrt(np.dot(Y, Y)))
        # exact frame of integer vectors, all of length L
        L = q * p // np.gcd(q, p)
        x_, y_ = np.array(X) * (L // q), np.array(Y) * (L // p)
        z_ = np.cross(x_, y_) // L
        how = rng.choice(['xy', 'vecs', 'cart', 'indices'])
        sx, sy_ = rng.choice([.5, 1, 3]), rng.choice([.25, 1, 2])
        kw = {}
        o = obj
        if how == 'xy':
            kw = dict(x=np.array(X) * sx, y=np.array(Y) * sy_)
        elif how == 'vecs':
            v0 = np.array([rng.randint(-3, 3) for k in range(3)], dtype=float)
            kw = dict(vecs=np.array([v0, v0 + np.array(X) * sx, v0 + np.array(Y) * sy_]))
        elif how == 'cart':
            if rng.random() < .3: z_ = -z_
            kw = dict(cart=np.array([x_, y_, z_]) / float(L))
        else:
            # three atoms that span the frame in a unit cell of one step
            if nat < 3: continue
            t = rng.randrange(n)
            st2 = [dict(cell=[[8, 0, 0], [0, 8, 0], [0, 0, 8]] if i == t else s['cell'], cf=[list(c) for c in s['cf']]) for i, s in enumerate(steps)]
            a, b, c = rng.sample(range(nat), 3)
            v0 = st2[t]['cf'][a]
            st2[t]['cf'][b] = [v0[k] + X[k] for k in range(3)]
            st2[t]['cf'][c] = [v0[k] + 2 * Y[k] for k in range(3)]
            evs.append(dict(op='inplace', exc='', after=st2))
            steps = st2
            o = build(st2, sy, traj, lam)
            kw = dict(indices=[t, a, b, c] if traj else [a, b, c])
        if rng.random() < .2: kw['eps'] = rng.choice([0, 1e-8])
        x, r = call(crys.align_cart, o, **kw)
        ev = dict(op='align', exc=x, kept=True, out=dict(sy=[], steps=[]), x=[int(v) for v in x_], y=[int(v) for v in y_], z=[int(v) for v in z_], how=how)
        if not x:
            ev['out'] = image(r, n, L, lam); ev['kept'] = bool(r.is_traj) == traj
        evs.append(ev)
    return dict(steps=sc['steps'], sy=sy), evs


if __name__ == '__main__':
    main(globals())
