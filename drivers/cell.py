import math
import numpy as np
from _base import *
from pwtools import crys, pwscf
from geom import ints

PI2 = 2 * math.pi


def from_mc(x):
    return dict(cells=[x['cell']], seed=sum((i + 2) * abs(v) for i, r in enumerate(x['cell']) for v in r))


def gen(rng, tier):
    out = []
    for i in range(120 if tier == 'quick' else 900):
        cells = []
        for t in range(rng.choice([1, 2, 3, 4])):
            while True:
                r = rng.choice([2, 4, 7])
                c = [[rng.randint(-r, r) for k in range(3)] for j in range(3)]
                if rng.random() < .2: c = [[c[i][j] if i == j else 0 for j in range(3)] for i in range(3)]
                d = round(np.linalg.det(c))
                if d != 0: break
            cells.append(c)
        out.append(dict(cells=cells, seed=rng.randrange(10**6)))
    return out


def cc_of(c):
    """lattice constants of an integer cell, computed here to have an input"""
    c = np.array(c, dtype=float)
    L = [math.sqrt(v @ v) for v in c]
    an = lambda i, j: math.degrees(math.acos(max(-1, min(1, c[i] @ c[j] / L[i] / L[j]))))
    return L + [an(1, 2), an(0, 2), an(0, 1)]


def metric_cc(r, lam=1.):
    r = np.asarray(r, float)
    a, b, c = r[:3] / lam
    co = [math.cos(math.radians(x)) for x in r[3:]]
    return [snap(x, 1, 1e-7) for x in (a * a, b * b, c * c, co[0] * b * c, co[1] * a * c, co[2] * a * b)]


def metric_cell(m, lam=1.):
    m = np.asarray(m, dtype=float) / lam
    g = m @ m.T
    return [snap(x, 1, 1e-7) for x in (g[0, 0], g[1, 1], g[2, 2], g[1, 2], g[0, 2], g[0, 1])]


def metric_cdm(r, fac):
    a = r[0] / fac; b = a * r[1]; c = a * r[2]
    return [snap(x, 1, 1e-7) for x in (a * a, b * b, c * c, r[3] * b * c, r[4] * a * c, r[5] * a * b)]


def run(sc, work):
    rng = random.Random(sc['seed'])
    evs = []
    cells = sc['cells']
    # units of length: any; without rounding where spacings are compared
    lam, lam2 = rng.choice([1., .25, .7, 1 / 3., 13.01, 1e-9, 1e6]), rng.choice([1., 1., .25, 8.])
    Cu = np.array(cells, dtype=float)
    C, C2 = Cu * lam, Cu * lam2
    T = len(cells)
    CC = np.array([cc_of(c) for c in cells]) * ([lam] * 3 + [1] * 3)
    one = rng.randrange(T)

    def series(name, arr, fn1, fn3, conv, extra=None):
        if rng.random() < .5:
            x, r = call(fn1, arr[one])
            e = dict(op=name, exc=x, cells=[cells[one]], out=[] if x else [conv(r)])
            if extra: e.update(extra([] if x else [r]))
        else:
            ax = rng.randrange(arr.ndim)
            kw = {} if ax == 0 else dict(axis=rng.choice([ax, ax - arr.ndim]))
            x, r = call(fn3, np.array(np.moveaxis(arr, 0, ax)), **kw)
            e = dict(op=name, exc=x, cells=cells, out=[] if x else [conv(q) for q in r])
            if extra: e.update(extra([] if x else list(r)))
        evs.append(e)
    for k in range(3):
        n = rng.choice([3, 3, 2, 1, 5])
        x = [rng.randint(-6, 6) for i in range(n)]
        if not any(x): x[0] = 1
        y = [rng.randint(-6, 6) for i in range(n)]
        if rng.random() < .4 or not any(y):
            f = rng.choice([1, 2, -1, -3])
            y = [f * v for v in x]
        fx, fy = rng.choice([1, .1, 1 / 3.]), rng.choice([1, .7])
        xx, r = call(crys.angle, np.array(x) * fx, np.array(y) * fy)
        c = 0 if xx else math.cos(math.radians(r))
        evs.append(dict(op='angle', x=x, y=y, exc=xx, inrange=bool(not xx and 0 <= r <= 180), out=snap(c * abs(c) * sum(v * v for v in x) * sum(v * v for v in y), 1, 1e-3)))
    series('cell2cc', C, crys.cell2cc, crys.cell2cc3d, lambda r: metric_cc(r, lam))

    def orient(rs):
        ok = all(abs(r[0][1]) < 1e-6 and abs(r[0][2]) < 1e-6 and r[0][0] > 0 and abs(r[1][2]) < 1e-6 and r[1][1] > 0 and r[2][2] > 0 for r in rs)
        return dict(orient=bool(ok))
    series('cc2cell', CC, crys.cc2cell, crys.cc2cell3d, lambda r: metric_cell(r, lam), orient)
    series('volume', C, crys.volume_cell, crys.volume_cell3d, lambda r: snap(r, lam**-3, 1e-7))
    series('volume', CC, crys.volume_cc, crys.volume_cc3d, lambda r: snap(r, lam**-3, 1e-7))
    fac = rng.choice([1.0, 2.0, 1.8897])
    kw = {} if fac == 1.0 and rng.random() < .5 else dict(fac=fac)
    x, r = call(crys.cc2celldm, CC[one], **kw)
    evs.append(dict(op='celldm', exc=x, cells=[cells[one]], out=[] if x else [metric_cdm(r, fac * lam)]))
    if not x:
        x, q = call(crys.celldm2cc, r, **(dict(fac=1 / fac) if kw else {}))
        evs.append(dict(op='celldm', exc=x, cells=[cells[one]], out=[] if x else [metric_cc(q, lam)]))
    det = round(np.linalg.det(Cu[one]))
    if det > 0:
        l3 = 1. if rng.random() < .3 else lam
        x, r = call(crys.recip_cell, cells[one] if l3 == 1. else C[one])
        evs.append(dict(op='recip', exc=x, cells=[cells[one]], out=[] if x else ints(np.asarray(r) * l3 / PI2 * det)))
    # grids
    I = np.array(cells[one])
    for rep in range(3):
        even = rng.random() < .4; minp = rng.choice([1, 1, 0, 2, 3]); full = rng.random() < .5
        kw = {}
        if even or rng.random() < .3: kw['even'] = even
        if minp != 1 or rng.random() < .3: kw['minpoints'] = minp
        if full: kw['fullout'] = True
        if rng.random() < .5:
            p = rng.choice([2, 3, 5, 8, 13, 30, 100]); A = p * p
            B = [64 * int(v @ v) for v in I]; fn, h, sc2 = crys.grid_in_cell, p / 8.0 * lam2, 64.0 / lam2**2
        else:
            if abs(det) > 90: continue
            cr = [np.cross(I[1], I[2]), np.cross(I[2], I[0]), np.cross(I[0], I[1])]
            p, q = rng.choice([(1, 3), (1, 8), (1, 12), (2, 5), (3, 4), (1, 1)])
            A = p * p * det * det; B = [q * q * int(v @ v) for v in cr]; fn, h, sc2 = crys.kgrid, PI2 * p / q / lam2, (q * det / PI2 * lam2) ** 2
        if max(B) / A > 45 ** 2 or max(B) > 2**28 or max(B) * 4 > 2**30 or A * (2 * 60 + 1) ** 2 > 2**31: continue
        k2 = dict(kw)
        k2['dk' if fn is crys.kgrid and rng.random() < .2 else 'h'] = h
        x, r = call(fn, C2[one], **k2)
        ev = dict(op='grid', exc=x, a=A, b=B, even=even, minp=minp, full=full, out=[], sp=[])
        if not x:
            size = r[0] if full else r
            ev['out'] = [snap(v) for v in np.asarray(size)]
            if full: ev['sp'] = [snap(v, 1, 1e-7) for v in (np.asarray(r[1]) * np.asarray(size)) ** 2 * sc2]
        evs.append(ev)
        sz = [rng.randint(1, 9) for k in range(3)]
        x, r = call(fn, C2[one], size=sz)
        evs.append(dict(op='spacing', exc=x, b=B, sp=[] if x else [snap(v, 1, 1e-7) for v in (np.asarray(r) * np.array(sz)) ** 2 * sc2]))
    # PWscf cells
    for rep in range(2):
        n = rng.randint(1, 14)
        p = [rng.choice([2, 4, 6, 8]), rng.randint(1, 9), rng.randint(1, 9)]
        while True:
            k = [rng.randint(-30, 30) for i in range(3)]
            cs = [k[0] / p[1] / p[2], k[1] / p[0] / p[2], k[2] / p[0] / p[1]]
            if n == 5: cs[0] = k[0] / p[0] ** 2
            if max(map(abs, cs)) < .97 and 1 + 2 * cs[0] * cs[1] * cs[2] - sum(c * c for c in cs) > .02 and (n != 5 or -.49 < cs[0]): break
        need = {1: 'a', 2: 'a', 3: 'a', 4: 'ac', 5: 'a3', 6: 'ac', 7: 'ac', 8: 'abc', 9: 'abc', 10: 'abc', 11: 'abc', 12: 'abc5', 13: 'abc5', 14: 'abc345'}[n]
        full = [p[0], p[1] / p[0], p[2] / p[0]] + cs
        fill = rng.random() < .3
        dm = [v if (c in need or fill) else None for v, c in zip(full, 'abc345')]
        if rng.random() < .3: dm[0] = float(dm[0])
        x, r = call(pwscf.ibrav2cell, n, dm)
        e = dict(op='ibrav', exc=x, n=n, p=p, k=k, metric4=[], cell2=[], right=True)
        if not x:
            r = np.asarray(r, dtype=float); g = 4 * r @ r.T
            e['metric4'] = [snap(v, 1, 1e-6) for v in (g[0, 0], g[1, 1], g[2, 2], g[1, 2], g[0, 2], g[0, 1])]
            if n not in (4, 5, 12, 13, 14): e['cell2'] = ints(r * 2)
            e['right'] = bool(np.linalg.det(r) > 0)
            if n in (4, 12, 14): e['right'] = bool(e['right'] and abs(r[0, 1]) + abs(r[0, 2]) + abs(r[1, 2]) < 1e-9 and r[0, 0] > 0 and r[1, 1] > 0)
        evs.append(e)
    # stress
    n = rng.choice([1, 2, 3, 6])
    V = [[rng.randint(-99, 99) for k in range(6)] for t in range(n)]
    S = []
    for v in V:
        xx, yy, zz, yz, xz, xy = v
        S.append([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])
    one = rng.random() < .5
    mu = rng.choice([1., .3, 1e-3 / 7])
    x, r = call(crys.tensor2voigt, np.array(S[0]) * mu) if one else call(crys.tensor2voigt3d, np.array(S) * mu)
    evs.append(dict(op='t2v', exc=x, inp=S[:1] if one else S, out=[] if x else ([ints(np.asarray(r) / mu)] if one else ints(np.asarray(r) / mu))))
    x, r = call(crys.voigt2tensor, np.array(V[0]) * mu if rng.random() < .5 else [w * mu for w in V[0]]) if one else call(crys.voigt2tensor3d, np.array(V) * mu)
    evs.append(dict(op='v2t', exc=x, inp=V[:1] if one else V, out=[] if x else ([ints(np.asarray(r) / mu)] if one else ints(np.asarray(r) / mu))))
    return {}, evs


if __name__ == '__main__':
    main(globals())
