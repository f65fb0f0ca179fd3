import json, zlib
import numpy as np
from types import SimpleNamespace
from _base import *
from _crysobs import obs, ccg, ints, SC, TU, LU, XU, TOK, toks, tfac
from pwtools import crys
from pwtools.crys import Structure, Trajectory

SY = ['Al', 'C', 'Ca', 'Cl', 'Fe', 'H', 'N', 'O', 'Si']
ATTR = ['coords', 'coords_frac', 'cell', 'cryst_const', 'forces', 'stress', 'velocity', 'etot', 'ekin', 'temperature']
UNITS = dict(coords='length', cell='length', cryst_const='length', forces='forces', stress='stress', velocity='velocity',
             etot='energy', ekin='energy', temperature='temperature')


def cells(rng):
    while 1:
        r = rng.random()
        if r < .3:
            m = [[rng.randint(1, 3) * 2 if i == j else 0 for j in range(3)] for i in range(3)]
        elif r < .5:
            p = rng.sample(range(3), 3)
            m = [[rng.choice([-1, 1]) * rng.randint(1, 3) * 2 if p[i] == j else 0 for j in range(3)] for i in range(3)]
        else:
            m = [[2 * rng.randint(-2, 2) + (4 if i == j else 0) for j in range(3)] for i in range(3)]
        d = np.linalg.det(np.array(m) / 2.)
        if abs(d) > .5 and max(sum(x * x for x in r) for r in m) <= 100:
            return [x for r in m for x in r]


def given(rng, kind, n, nat, P):
    g = {}
    c0 = cells(rng)
    st = kind == 'T' and rng.random() < .5
    for a in P:
        static = kind == 'T' and a in ('cell', 'cryst_const') and rng.random() < .5
        m = 1 if (kind == 'S' or static) else n
        R = lambda k, lo, hi, mul=1: [[mul * rng.randint(lo, hi) for i in range(k)] for s in range(m)]
        if a == 'coords': v = R(3 * nat, -20, 40, 4)
        elif a == 'coords_frac': v = R(3 * nat, -16, 32)
        elif a == 'cell': v = [cells(rng) for s in range(m)]
        elif a == 'cryst_const':
            v = [[rng.choice([2, 2, 4]) for i in range(3)] + rng.choice([[90, 90, 90], [90, 90, 120], [60, 60, 60], [90, 60, 90], [60, 90, 90], [90, 120, 90], [60, 90, 120]]) for s in range(m)]
        elif a == 'forces': v = R(3 * nat, -40, 40, 2)
        elif a == 'stress': v = R(9, -40, 40, 2)
        elif a == 'velocity': v = R(3 * nat, -12, 12, 64 * 2)
        else: v = R(1, -50, 90, 2)
        g[a] = dict(steps=v, static=static)
    return g


def new_op(rng, kind=None, rich=False, n=None, nat=None, sym=None, units=True):
    kind = kind or rng.choice('ST')
    n = 1 if kind == 'S' else (n or rng.choice([1, 1, 2, 3, 3, 4, 5]))
    nat = nat or rng.choice([1, 1, 2, 3, 4])
    P = [a for a in ATTR if rng.random() < .35 and (kind == 'T' or a not in ('velocity', 'ekin', 'temperature'))]
    if kind == 'T' and not {'coords', 'coords_frac'} & set(P):
        P.append(rng.choice(['coords', 'coords_frac']))
    if rich:
        for s in (('coords', 'coords_frac'), ('cell', 'cryst_const')):
            if not set(s) & set(P): P.append(rng.choice(s))
    u = {}
    if units and rng.random() < .5:
        for k in ('length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time'):
            if rng.random() < .5: u[k] = rng.choice([[2, 1], [1, 2]])
    syms = sym or [rng.choice(SY) for i in range(nat)]
    op = dict(op='new', kind=kind, n=n, nat=nat, symbols=syms if (rich or rng.random() < .8) else [],
              given=given(rng, kind, n, nat, P), units=u, dt=rng.choice([0, 4, 8]) if kind == 'T' else 0)
    # |v*dt| bounded
    return op


def from_mc(x):
    """abstract history -> concrete one"""
    import random
    res = []
    rng = random.Random(repr(x))
    nat = rng.choice([1, 2, 3])
    sym = [rng.choice(SY[:4]) for i in range(nat)]
    ops = []
    for e in x['ops']:
        if e['op'] == 'new':
            ops.append(new_op(rng, kind=e['kind'], rich=True, n=e['n'], nat=nat, sym=sym))
        else:
            ops.append(e)
    return dict(ops=ops)


def rsl(rng):
    f = lambda lo, hi: [] if rng.random() < .3 else [rng.randint(lo, hi)]
    return f(-6, 6), f(-6, 6), ([] if rng.random() < .4 else [rng.choice([-3, -2, -1, 1, 2, 3])])


def gen(rng, tier):
    res = []
    for i in range(30 if tier == 'quick' else 400):
        # iterations over the same object taking turns (some of them abandoned), seen next to plain indexing
        n = rng.choice([2, 3, 4, 5, 6])
        ops = [new_op(rng, kind='T', rich=True, n=n, nat=rng.choice([1, 2]))]
        m = 0
        for q in range(rng.randint(6, 16)):
            r = rng.random()
            if m < 2 or (m < 4 and r < .1):
                ops.append(dict(op='iter_start', i=1)); m += 1
            elif r < .2: ops.append(dict(op='item', i=1, k=rng.randint(-n, n - 1)))
            else: ops.append(dict(op='iter_next', it=rng.randint(1, m)))
        res.append(dict(ops=ops))
    for i in range(30 if tier == 'quick' else 400):
        # conversion factors close to one; as many steps / atoms as an array has columns
        n = rng.choice([3, 6, 6, 9, 2])
        o = new_op(rng, kind=rng.choice('TTTS'), rich=True, n=n, nat=rng.choice([1, 2, 3, 6]), units=False)
        if o['kind'] == 'T' and rng.random() < .7:
            o['given'].pop('cell', None)
            o['given'].update(given(rng, 'T', n, o['nat'], ['cryst_const']))
        for k in ('energy', 'stress', 'forces', 'temperature'):
            if rng.random() < .5:
                o['units'][k] = rng.choice([[1025, 1024], [1023, 1024]])
                for a in o['given']:
                    if UNITS.get(a) == k:
                        o['given'][a]['steps'] = [[x * 512 for x in r] for r in o['given'][a]['steps']]
        if rng.random() < .8: o['units']['length'] = rng.choice([[2, 1], [1, 2]])
        ops = [o]
        for q in range(rng.randint(0, 2)):
            ops.append(rng.choice([dict(op='setall', i=1, attrs=[]), dict(op='copy', i=1)]))
        res.append(dict(ops=ops))
    for i in range(12 if tier == 'quick' else 150):
        # interpolating between structures which have everything
        nat = rng.choice([1, 2, 3]); sym = [rng.choice(SY) for k in range(nat)]
        ops = []
        for k in range(2):
            o = new_op(rng, kind='S', rich=True, nat=nat, sym=sym, units=False)
            o['given'].update(given(rng, 'S', 1, nat, ['forces', 'coords', 'cell'] if rng.random() < .8 else ['forces']))
            ops.append(o)
        for k in range(3):
            ops.append(dict(op='mix', i=rng.choice([1, 2]), j=rng.choice([1, 2]), alpha=rng.choice([[0, 4], [1], [0], [4], [3], [2, 3, 1], [0, 1, 2, 3, 4]])))
        res.append(dict(ops=ops))
    N = 260 if tier == 'quick' else 4000
    for i in range(N):
        ops = []
        nat = rng.choice([1, 2, 3])
        sym = [rng.choice(SY) for k in range(nat)]
        kinds = []
        its = 0
        for k in range(rng.randint(1, 3)):
            rich = rng.random() < .7
            o = new_op(rng, rich=rich, nat=nat, sym=sym)
            kinds.append((o['kind'], rich)); ops.append(o)
        for k in range(rng.randint(2, 7)):
            j = rng.randrange(len(kinds)) + 1
            kd, rich = kinds[j - 1]
            op = rng.choice(['setall', 'copy', 'clear', 'item', 'item', 'slice', 'slice', 'concat', 'mean', 'mix', 'get_traj', 'iter', 'iter', 'iter', 'setall'])
            if op in ('setall',):
                ops.append(dict(op=op, i=j, attrs=[]))
            elif op == 'copy':
                ops.append(dict(op=op, i=j)); kinds.append((kd, rich))
            elif op == 'clear' and rich:
                c = rng.choice(['coords', 'coords_frac', 'cell', 'cryst_const', 'volume', 'pressure', 'natoms', 'order', 'velocity', 'time', 'typat'])
                ops.append(dict(op=op, i=j, attrs=[c]))
            elif op == 'item' and kd == 'T':
                ops.append(dict(op=op, i=j, k=rng.randint(-5, 5))); kinds.append(('?', rich))
            elif op == 'slice' and kd == 'T':
                a, b, c = rsl(rng)
                ops.append(dict(op=op, i=j, a=a, b=b, c=c)); kinds.append(('?', rich))
            elif op == 'concat':
                c = [m + 1 for m, q in enumerate(kinds) if q[0] != '?' and q[1]]
                if c:
                    ops.append(dict(op=op, **{'is': [rng.choice(c) for m in range(rng.randint(1, 4))]})); kinds.append(('T', True))
            elif op == 'mean' and kd == 'T':
                ops.append(dict(op=op, i=j)); kinds.append(('?', rich))
            elif op == 'mix':
                c = [m + 1 for m, q in enumerate(kinds) if q[0] == 'S' and q[1]]
                if c:
                    ops.append(dict(op=op, i=rng.choice(c), j=rng.choice(c), alpha=rng.choice([[0, 4], [0, 1, 2, 3, 4], [4, 0, 2], [1], [0], [4], [4, 1]]))); kinds.append(('?', True))
            elif op == 'get_traj' and kd == 'S':
                ops.append(dict(op=op, i=j, n=rng.choice([1, 2, 3]))); kinds.append(('T', rich))
            elif op == 'iter' and kd == 'T':
                if its == 0 or rng.random() < .4:
                    ops.append(dict(op='iter_start', i=j)); its += 1
                m = its if rng.random() < .7 else rng.randint(1, its)
                for q in range(rng.randint(1, 6)):
                    ops.append(dict(op='iter_next', it=m))
        res.append(dict(ops=ops))
    return res


def build(op):
    kw = {}
    n, nat = op['n'], op['nat']
    for a, d in op['given'].items():
        v = d['steps']
        if a == 'cryst_const':
            x = np.array(v, dtype=float) * ([LU[0]] * 3 + [1] * 3); shape = (6,)
        else:
            x = np.array(v, dtype=float) / SC[a] / tfac(a)
            shape = {'cell': (3, 3), 'stress': (3, 3), 'etot': (), 'ekin': (), 'temperature': ()}.get(a, (nat, 3))
        if op['kind'] == 'S' or d['static']:
            kw[a] = x[0].reshape(shape) if shape else float(x[0][0])
        else:
            kw[a] = x.reshape((len(v),) + shape)
    if op['symbols']:
        kw['symbols'] = list(op['symbols'])
    if op['dt']:
        kw['timestep'] = op['dt'] / 4. * TU[0]
    u = {k: v[0] / v[1] for k, v in op['units'].items()}
    if u:
        kw['units'] = u
    # exact contents of what is given without a unit, step by step
    op['gt'] = {a: toks(SimpleNamespace(**{a: kw[a]}), a) for a in op['given'] if UNITS.get(a) not in u}
    RAW.extend((v, v.copy()) for v in kw.values() if isinstance(v, np.ndarray))
    return Structure(**kw) if op['kind'] == 'S' else Trajectory(**kw)


# arrays handed to constructors and what was in them then
RAW = []


def run(sc, work):
    objs, its, evs = [], [], []
    done = set(); RAW.clear()
    TU[0] = [1.0, 0.1, 0.7, 1.0, 0.3, 2.1][zlib.crc32(json.dumps(sc, sort_keys=True).encode()) % 6]
    h = zlib.crc32(json.dumps(sc, sort_keys=True).encode()) // 7
    LU[0] = [1.0, .7, 1 / 3., 1.3][h % 4]
    XU.clear(); TOK.clear()
    XU.update(forces=[1.0, .7, 1 / 3.][h // 4 % 3], stress=[1.0, 1.3, 1 / 7.][h // 12 % 3], etot=[1.0, 13.605, 1 / 3.][h // 36 % 3])
    for op in sc['ops']:
        k = op['op']
        e = dict(op=k)
        o = None
        ok = lambda *ii: all(0 < i <= len(objs) and objs[i - 1] is not None and not hasattr(objs[i - 1], '_skip') for i in ii)
        if k == 'new':
            e.update(kind=op['kind'], n=op['n'], symbols=op['symbols'], units=op['units'], dt=op['dt'], given={})
            for a, d in op['given'].items():
                e['given'][a] = dict(static=d['static'], steps=[ints(ccg(x), 4) for x in d['steps']] if a == 'cryst_const' else d['steps'])
            op = dict(op, gt={})
            exc, o = call(build, op)
            e['gt'] = op['gt']
        elif k in ('setall', 'clear'):
            if not ok(op['i']) or (k == 'clear' and objs[op['i'] - 1].is_struct and op['attrs'][0] in ('velocity', 'time')): continue
            t = objs[op['i'] - 1]
            if hasattr(t, '_skip'): continue
            if t.is_traj and t.nstep == 0: continue
            e.update(i=op['i'], attrs=op['attrs'])
            for a in op['attrs']: setattr(t, a, None)
            exc, _ = call(t.set_all)
            e['exc'] = exc; e['o'] = obs(t) if not exc else {}
            evs.append(e)
            if exc: break
            continue
        elif k == 'copy':
            if not ok(op['i']): continue
            e.update(i=op['i'])
            exc, o = call(objs[op['i'] - 1].copy)
        elif k == 'item':
            if not ok(op['i']) or not objs[op['i'] - 1].is_traj: continue
            e.update(i=op['i'], k=op['k'])
            exc, o = call(lambda: objs[op['i'] - 1][op['k']])
        elif k == 'slice':
            if not ok(op['i']) or not objs[op['i'] - 1].is_traj: continue
            e.update(i=op['i'], a=op['a'], b=op['b'], c=op['c'])
            f = lambda x: x[0] if x else None
            exc, o = call(lambda: objs[op['i'] - 1][slice(f(op['a']), f(op['b']), f(op['c']))])
        elif k == 'concat':
            L = op['is']
            if not ok(*L) or any(hasattr(objs[i - 1], '_skip') or len(objs[i - 1].symbols or []) == 0 for i in L): continue
            if any(objs[i - 1].is_traj and objs[i - 1].nstep == 0 for i in L): continue
            e['is'] = L
            exc, o = call(lambda: crys.concatenate([objs[i - 1] for i in L]))
        elif k == 'mean':
            if not ok(op['i']) or not objs[op['i'] - 1].is_traj or objs[op['i'] - 1].nstep == 0: continue
            e.update(i=op['i'])
            t = objs[op['i'] - 1]
            exc, o = call(crys.mean, t)
            if o is not None:
                o._skip = True
                e['o'] = obs(o, t.nstep)
        elif k == 'mix':
            if not ok(op['i'], op['j']): continue
            a, b = objs[op['i'] - 1], objs[op['j'] - 1]
            if any(x.is_traj or hasattr(x, '_skip') or x.coords is None or x.cell is None for x in (a, b)) or a.symbols != b.symbols: continue
            al = op['alpha']
            e.update(i=op['i'], j=op['j'], alpha=al)
            exc, o = call(crys.mix, a, b, np.array(al) / 4.)
            if o is not None:
                o._skip = True
                e['o'] = obs(o, 4)
                e['ends'] = all((getattr(o, n)[m] == getattr(s, n)).all() for m, x in enumerate(al) for s in ([a] if x == 0 else [b] if x == 4 else []) for n in ('coords', 'cell'))
        elif k == 'get_traj':
            if not ok(op['i']) or not objs[op['i'] - 1].is_struct or hasattr(objs[op['i'] - 1], '_skip'): continue
            if objs[op['i'] - 1].coords_frac is None and objs[op['i'] - 1].coords is None: continue
            e.update(i=op['i'], n=op['n'])
            exc, o = call(objs[op['i'] - 1].get_traj, op['n'])
        elif k == 'iter_start':
            if not ok(op['i']) or not objs[op['i'] - 1].is_traj: continue
            e.update(i=op['i'])
            exc, it = call(iter, objs[op['i'] - 1])
            e['exc'] = exc
            its.append(it); evs.append(e)
            if exc: break
            continue
        elif k == 'iter_next':
            m = op['it']
            if m > len(its) or m in done: continue
            exc, o = call(next, its[m - 1])
            if exc: done.add(m)
            e.update(it=m, exc=exc, o=obs(o) if not exc else {})
            evs.append(e)
            continue
        e['exc'] = exc
        if 'o' not in e: e['o'] = obs(o) if o is not None else {}
        if k == 'new' and exc:
            evs.append(e); break
        objs.append(o)
        evs.append(e)
    for e in evs: e['raw'] = True
    if evs: evs[-1]['raw'] = all((a == b).all() for a, b in RAW)
    return {}, evs


if __name__ == '__main__':
    main(globals())
