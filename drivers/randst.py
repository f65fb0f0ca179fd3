"""Random structures under many configurations and random streams; the result is recorded, not judged, here."""
import numpy as np
from _base import *
from pwtools import random as R, crys

WORKERS = 8
ELS = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Cs', 'Fe']


def from_mc(x):
    import zlib
    rng = random.Random(zlib.crc32(repr(x).encode()))
    n = x['n']
    el = rng.choice(['Si', 'Al', 'O'])
    return dict(sym=[el] * n, vs=rng.choice([4000, 6000, 8000]), ar=rng.choice([[8900, 9100], [6000, 12000]]), vr=[500, 1600], lr=[800, 1250], cs=rng.choice([500, 700, 1000]), ct=100, at=x['maxtry'], hopeless=False,
                draws=[[p[0] / x['k'], p[1] / x['k'], rng.choice([0, 0, .5])] for p in x['draws']], seed=rng.randrange(10**6), n=1, fail=True)


def gen(rng, tier):
    out = []
    for i in range(120 if tier == 'quick' else 2500):
        n = rng.choice([1, 2, 2, 3, 4, 6, 10])
        els = rng.sample(ELS[:6], rng.choice([1, 2, 3]))
        if n <= 3 and rng.random() < .3: els = rng.sample(ELS, 2)
        sc = dict(sym=[rng.choice(els) for k in range(n)], vs=rng.choice([2000, 3000, 4000, 4000, 8000, 15000]) if n < 6 else rng.choice([3000, 4000, 6000]), ar=rng.choice([[6000, 12000], [6000, 12000], [8000, 10000], [9000, 9000], [4500, 13500], [3000, 15000]]),
                  vr=rng.choice([[700, 1300], [700, 1300], [300, 2000], [950, 1050]]), lr=rng.choice([[700, 1300], [700, 1300], [400, 2200], [900, 1100]]),
                  cs=rng.choice([1000, 1000, 500, 800, 1300]), ct=rng.choice([1, 5, 100, 100, 1000]), at=rng.choice([1, 10, 200, 1000]), hopeless=False, seed=rng.randrange(2**31), n=rng.choice([1, 2, 3]), fail=True, draws=[])
        r = rng.random()
        if r < .06: sc.update(cs=20000, hopeless=n > 1, n=1)
        elif r < .1: sc.update(vr=[20000, 30000], hopeless=True)
        elif r < .2 and n < 6: sc.update(fail=False, cs=500, ar=[6000, 12000], vr=[500, 1500], lr=[700, 1300], ct=100, at=200, vs=8000)
        out.append(sc)
    return out


def run(sc, work):
    np.random.seed(sc['seed'])
    rng = random.Random(sc['seed'])
    hdr = {k: sc[k] for k in ('sym', 'vs', 'ar', 'vr', 'lr', 'cs', 'hopeless')}
    hdr['ct'], hdr['at'] = sc['ct'], sc['at']
    kw = dict(vol_scale=sc['vs'] / 1000., angle_range=[a / 100. for a in sc['ar']], vol_range_scale=[v / 1000. for v in sc['vr']], length_range_scale=[v / 1000. for v in sc['lr']], close_scale=sc['cs'] / 1000., cell_maxtry=sc['ct'], atom_maxtry=sc['at'])
    real = np.random.rand
    left = [list(d) for d in sc['draws']]
    def rand(*shape):
        if left and shape == (3,): return np.array(left.pop(0))
        return real(*shape)
    evs = []
    syms = list(sc['sym'])
    exc, rs = call(R.RandomStructure, syms, **kw)
    if exc:
        return hdr, [dict(op='struct', exc=exc, mayfail=False)]
    np.random.rand = rand
    try:
        for q in range(sc['n']):
            if rng.random() < .3:
                e, cc = call(rs.get_random_cryst_const)
                ev = dict(op='cc', exc=e, mayfail=True, cc=[], vol=-1)
                if e == '':
                    cell = crys.cc2cell(cc)
                    ev.update(cc=[snapr(c, 1000) for c in cc[:3]] + [snapr(c, 100) for c in cc[3:]], vol=snapr(abs(np.linalg.det(cell)), 1e4))
                evs.append(ev)
            how = rng.random()
            left[:] = [list(d) for d in sc['draws']]
            if not sc['fail']: e, st = call(rs.get_random_struct, fail=False)
            elif how < .2: e, st = call(R.random_struct, list(syms), **kw)
            else: e, st = call(rs.get_random_struct, fail=True)
            ev = dict(op='struct', exc=e, mayfail=sc['fail'])
            if e == '':
                cell = np.array(st.cell, dtype=float); f = np.array(st.coords_frac, dtype=float)
                L = np.sqrt((cell**2).sum(axis=1))
                ang = [np.degrees(np.arccos(np.dot(cell[i], cell[j]) / L[i] / L[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
                ev.update(sym=[str(s) for s in st.symbols], f=[[int(np.floor(x * 1e6)) if abs(x) < 1e3 else BIG for x in r] for r in f], cc=[snapr(x, 1000) for x in L] + [snapr(x, 100) for x in ang],
                          vol=snapr(abs(np.linalg.det(cell)), 1e4), cell=[[snapr(x, 1000) for x in r] for r in cell], x=[[snapr(x, 1000) for x in r] for r in np.dot(f, cell)])
            evs.append(ev)
    finally:
        np.random.rand = real
    return hdr, evs


main(globals())
