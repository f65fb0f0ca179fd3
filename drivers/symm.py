"""Crystals handed to ASE / spglib and back, primitive cells, space groups (C43)."""
import itertools, math
import numpy as np
from _base import *
from pwtools import crys, symmetry
from pwtools.crys import Structure
from geom import ints

SY = ['H', 'C', 'N', 'O', 'Na', 'Al', 'S', 'Cl', 'Ca', 'Ti', 'Fe', 'Zn']


def from_mc(x):
    return dict(proto=x['proto'], cr=x['cr'], hist=x['hist'], seed=sum(sum(h['v']) + len(h['how']) for h in x['hist']) + len(x['proto']))


def gen(rng, tier):
    out = []
    for i in range(70 if tier == 'quick' else 500):
        while True:
            r = rng.choice([0, 1, 3])
            c = [[rng.randint(-r, r) + (rng.randint(2, 5) if i == j else 0) for j in range(3)] for i in range(3)]
            if rng.random() < .3: c = [c[2], c[0], c[1]]
            m = np.array(c)
            w = min(abs(np.linalg.det(m)) / np.linalg.norm(np.cross(m[(k + 1) % 3], m[(k + 2) % 3])) for k in range(3))
            if abs(np.linalg.det(m)) > 3 and w > 1.3: break
        den = rng.choice([2, 3, 4, 6])
        nat = rng.choice([1, 2, 3, 4])
        pts = rng.sample(list(itertools.product(range(den), repeat=3)), nat)
        cf = [[v + den * (rng.choice([0, 0, 0, -1, 1, 2])) for v in p] for p in pts]
        sy = [rng.choice(rng.sample(SY, rng.choice([1, 2, 3]))) for k in pts]
        hist, n = [], nat
        for k in range(rng.randint(0, 3)):
            how = rng.choice(['super', 'super', 'shift', 'perm', 'rebase'])
            if how == 'super':
                d = [rng.choice([1, 1, 2, 3]) for q in range(3)]
                if n * d[0] * d[1] * d[2] > 8: continue
                n *= d[0] * d[1] * d[2]; v = d
            elif how == 'shift': v = [rng.randint(-7, 7) for q in range(3)]
            elif how == 'perm': v = rng.sample(range(1, n + 1), n)
            else: v = rng.sample([1, 2, 3], 2) + [rng.choice([-1, 1])]
            hist.append(dict(how=how, v=v))
        out.append(dict(proto='none', cr=dict(cell=c, den=den, cf=cf, sy=sy), hist=hist, seed=rng.randrange(10**6)))
    return out


def apply(cr, h):
    """integer description, as the specification changes it"""
    c, d, cf, sy = cr['cell'], cr['den'], cr['cf'], cr['sy']
    v = h['v']
    if h['how'] == 'super':
        p = v[0] * v[1] * v[2]
        im = list(itertools.product(*[range(x) for x in v]))
        return dict(cell=[[v[i] * x for x in c[i]] for i in range(3)], den=d * p,
                    cf=[[(f[k] + d * m[k]) * (p // v[k]) for k in range(3)] for f in cf for m in im], sy=[s for s in sy for m in im])
    if h['how'] == 'shift':
        return dict(cr, cf=[[f[k] + v[k] for k in range(3)] for f in cf])
    if h['how'] == 'perm':
        return dict(cr, cf=[cf[i - 1] for i in v], sy=[sy[i - 1] for i in v])
    i, j, k = v[0] - 1, v[1] - 1, v[2]
    c2 = [list(r) for r in c]; c2[i] = [c[i][q] + k * c[j][q] for q in range(3)]
    return dict(cr, cell=c2, cf=[[f[q] - k * f[i] if q == j else f[q] for q in range(3)] for f in cf])


def build(cr, rng):
    kw = dict(symbols=list(cr['sy']), cell=np.array(cr['cell'], dtype=float))
    f = np.array(cr['cf'], dtype=float) / cr['den']
    if rng.random() < .5: kw['coords_frac'] = f
    else: kw['coords'] = f @ kw['cell']
    return Structure(**kw)


def width(c):
    c = np.asarray(c, dtype=float)
    return min(abs(np.linalg.det(c)) / np.linalg.norm(np.cross(c[(k + 1) % 3], c[(k + 2) % 3])) for k in range(3))


def shells(st, r2, den):
    c = np.asarray(st.cell, dtype=float); f = np.asarray(st.coords_frac, dtype=float) % 1.0
    K = int(math.ceil(math.sqrt(r2) / width(c))) + 1
    if K > 12: return []
    im = np.array(list(itertools.product(range(-K, K + 1), repeat=3)))
    cnt = {}
    for i in range(len(f)):
        for j in range(len(f)):
            q = (((f[i] - f[j])[None] + im) @ c); q = (q * q).sum(axis=1)
            for x in q[(q > 1e-6) & (q < r2 + 1e-4)]:
                k = (st.symbols[i], st.symbols[j], snap(x, den * den, .05))
                cnt[k] = cnt.get(k, 0) + 1
    return [list(k) + [v] for k, v in sorted(cnt.items(), key=str)]


def run(sc, work):
    rng = random.Random(sc['seed'])
    cr = sc['cr']; st = build(cr, rng)
    evs = [dict(op='base', exc='', proto=sc['proto'], cr=cr)]

    def frac(s, den): return ints(np.asarray(s) * den, 1)

    def look():
        st, den = cur[0], cur[1]['den']
        what = rng.sample(['ase', 'fake', 'spg', 'group', 'prim', 'same', 'same', 'partial'], rng.choice([3, 5, 8]))
        for w in what:
            if w == 'ase':
                pbc = rng.choice([None, None, True, False, [1, 0, 1], [True, True, False]])
                want = [False] * 3 if pbc is None else [bool(pbc)] * 3 if isinstance(pbc, bool) else [bool(x) for x in pbc]
                kw = {} if pbc is None else dict(pbc=pbc)
                fn = st.get_ase_atoms if rng.random() < .5 else lambda **k: crys.struct2atoms(st, **k)
                x, a = call(fn, **kw)
                e = dict(op='ase', exc=x, want=want)
                if not x:
                    e.update(sy=list(a.get_chemical_symbols()), cell=ints(np.asarray(a.cell)), pbc=[bool(q) for q in a.pbc],
                             cf=frac(a.get_scaled_positions(wrap=False), den), xyz=ints(a.get_positions() * den, 1))
                evs.append(e)
                if not x:
                    x, b = call(crys.atoms2struct, a)
                    e = dict(op='back', exc=x, pbc=want)
                    if not x: e.update(sy=list(b.symbols), cell=ints(b.cell), cf=frac(b.coords_frac, den), xyz=ints(np.asarray(b.coords) * den, 1))
                    evs.append(e)
            elif w == 'fake':
                x, a = call(st.get_fake_ase_atoms)
                e = dict(op='fake', exc=x)
                if not x:
                    x, q = call(lambda: dict(sy=list(a.symbols), cell=ints(a.get_cell()), cf=frac(a.get_scaled_positions(), den), xyz=ints(np.asarray(a.get_positions()) * den, 1),
                                             z=[int(v) for v in a.get_atomic_numbers()], n=int(a.get_number_of_atoms()), mag=a.get_magnetic_moments() is None))
                    e['exc'] = x
                    if not x: e.update(q)
                evs.append(e)
            elif w == 'partial':
                drop = rng.choice(['symbols', 'cell', ''])
                kw = dict(symbols=list(cur[1]['sy']), cell=np.array(cur[1]['cell'], dtype=float), coords_frac=np.array(cur[1]['cf'], dtype=float) / den)
                if drop: kw.pop(drop)
                x, a = call(lambda: Structure(**kw).get_ase_atoms())
                evs.append(dict(op='partial', exc=x, none=a is None, complete=drop == ''))
            elif w == 'spg':
                x, t = call(st.get_spglib) if rng.random() < .5 else call(symmetry.struct2spglib, st)
                e = dict(op='spg', exc=x)
                if not x: e.update(cell=ints(t[0]), cf=frac(t[1], den), z=[int(v) for v in t[2]])
                evs.append(e)
                if not x:
                    x, b = call(symmetry.spglib2struct, t)
                    e = dict(op='spgback', exc=x)
                    if not x: e.update(sy=list(b.symbols), cell=ints(b.cell), cf=frac(b.coords_frac, den))
                    evs.append(e)
            elif w == 'group':
                kw = rng.choice([{}, dict(symprec=1e-3)])
                x, g = call(symmetry.spglib_get_spacegroup, st, **kw)
                evs.append(dict(op='group', exc=x, num=0 if x else int(g[0]), name='' if x else str(g[1])))
            elif w == 'prim':
                kw = rng.choice([{}, dict(symprec=1e-3)])
                x, p = call(symmetry.spglib_get_primitive, st, **kw)
                r2 = max(1, min(20, int(width(cur[1]['cell']) ** 2 - 1e-9)))
                e = dict(op='prim', exc=x, none=p is None, n=0, count={}, vol=0, volfac=len(cur[1]['sy']), shells=[], r2=r2, num=0, name='')
                if not x and p is not None:
                    x, g = call(symmetry.spglib_get_spacegroup, p, **kw)
                    e.update(exc=x, n=int(p.natoms), count={s: p.symbols.count(s) for s in set(p.symbols)}, vol=snap(p.volume, e['volfac'], 1e-4), shells=shells(p, r2, den))
                    if not x: e.update(num=int(g[0]), name=str(g[1]))
                evs.append(e)
            elif w == 'same':
                o = dict(cur[1]); how = rng.choice(['copy', 'rotated', 'moved', 'symbol', 'cell', 'perm', 'vacancy', 'scaled', 'swap'])
                n = len(o['sy'])
                if how == 'moved':
                    i = rng.randrange(n); k = rng.randrange(3)
                    f = [list(q) for q in o['cf']]; f[i][k] += rng.choice([-1, 1]); o['cf'] = f
                elif how == 'symbol':
                    s = list(o['sy']); s[rng.randrange(n)] = rng.choice(SY); o['sy'] = s
                elif how == 'cell':
                    c = [list(q) for q in o['cell']]; c[rng.randrange(3)][rng.randrange(3)] += rng.choice([-1, 1]); o['cell'] = c
                elif how == 'perm':
                    o = apply(o, dict(how='perm', v=rng.sample(range(1, n + 1), n)))
                elif how == 'vacancy' and n > 1:
                    i = rng.randrange(n); o['sy'] = o['sy'][:i] + o['sy'][i + 1:]; o['cf'] = o['cf'][:i] + o['cf'][i + 1:]
                elif how == 'swap':
                    s = list(o['sy']); rng.shuffle(s); o['sy'] = s
                elif how == 'scaled':
                    o['cell'] = [[2 * q for q in r] for r in o['cell']]
                if abs(np.linalg.det(np.array(o['cell']))) < .5 or width(o['cell']) < .5: continue
                if len({tuple(q % o['den'] for q in f) for f in o['cf']}) < len(o['cf']): continue
                s2 = build(o, rng)
                if how == 'rotated':
                    s2 = Structure(symbols=list(o['sy']), cryst_const=s2.cryst_const.copy(), coords_frac=np.array(o['cf'], dtype=float) / o['den'])
                a, b = (st, s2) if rng.random() < .5 else (s2, st)
                x, r = call(symmetry.is_same_struct, a, b)
                evs.append(dict(op='same', exc=x, cr=o, ret=bool(r)))
    cur = [st, cr]
    look()
    for h in sc['hist']:
        cr = apply(cur[1], h)
        x = ''
        if h['how'] == 'super' and rng.random() < .7:
            x, s = call(crys.scell, cur[0], tuple(h['v']))
            if x: evs.append(dict(op='change', exc=x, **h)); break
        else:
            s = build(cr, rng)
        cur = [s, cr]
        evs.append(dict(op='change', exc=x, **h))
        look()
    return {}, evs


if __name__ == '__main__':
    main(globals())
