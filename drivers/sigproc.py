import numpy as np
from _base import *
from pwtools import signal as psig, crys
import _base

WORKERS = 8
LA = [1, .7, 1 / 3, 13.01, 1e-9, 1e7]        # units of floating point input


def deep(x, *a):
    if isinstance(x, (list, tuple)) or getattr(x, 'ndim', 0) > 0: return [deep(y, *a) for y in x]
    return _base.snap(x, *a)


def from_mc(x):
    h = sum((i + 2) * (c + 1) for i, c in enumerate(x['v'] + x['k'])) * 7 + len(x['o']['sh']) * 3 + sum(map(ord, x['o']['sh'] + x['o']['edge'] + x['o']['where']))
    if h % (503 if TIER == 'quick' else 331): return []
    return dict(kind='mc', v=x['v'], k=x['k'], o=x['o'], seed=h)


def gen(rng, tier):
    return [dict(kind='rnd', seed=rng.randrange(10**6)) for i in range(70 if tier == 'quick' else 1200)]


def lay(rng, a):
    q = rng.randrange(5)
    if q == 0: return np.asfortranarray(a)
    if q == 1: return a[::-1].copy()[::-1]
    if q == 2: return a.astype(float)
    return a


def run(sc, work):
    rng = random.Random(sc['seed'])
    R, evs = rng.choice, []
    if sc['kind'] == 'mc':
        n, ker, o = len(sc['v']), sc['k'], sc['o']
        shape = {'n': (n,), 'n1': (n, 1), '2n': (2, n), 'n3': (n, 3), '1n2': (1, n, 2), '2n2': (2, n, 2)}[o['sh']]
        ax = o['sh'].index('n')
        edge, where = o['edge'], o['where']
        a = np.array([[v + rng.randint(0, 1) * (j > 0) for v in sc['v']] for j in range(int(np.prod(shape)) // n)])
        a = np.moveaxis(a.reshape(tuple(s for i, s in enumerate(shape) if i != ax) + (n,)), -1, ax)
    else:
        shape = tuple(R([1, 2, 3, 4, 7, 10]) for i in range(R([1, 1, 2, 3, 4])))
        while np.prod(shape) > 150: shape = shape[1:]
        ax = rng.randrange(len(shape))
        ker = [R([0, 1, 2, 3, -1]) for i in range(R([1, 2, 3, 4, 5, 6, 9, 12, 25]))]
        if sum(ker) <= 0: ker[-1] = 1 - sum(ker[:-1])
        edge, where = R('mc'), R(['end', 'start'])
        a = np.array([rng.randint(-50, 50) for i in range(int(np.prod(shape)))]).reshape(shape)
    n = shape[ax]
    axa = ax - len(shape) if rng.random() < .4 else ax
    def rec(op, fn, x, f=nd, **kw):
        la = R(LA) if x.dtype.kind == 'f' else 1
        if la != 1: x = x * la
        b = x.copy()
        e, r = call(fn, x)
        evs.append(dict(kw, op=op, a=nd(b / la if la != 1 else b), axis=axa, exc=e, o=f(r if la == 1 else r / la) if not e else nd(None), kept=bool(np.array_equal(x, b))))
        return r
    # padding
    for how in ('default', 'nadd', 'upto', 'tonext'):
        arg = {'default': 0, 'nadd': R([0, 1, 2, 5]), 'upto': n + R([0, 1, 4, 4, -1]), 'tonext': R([0, 0, n, n + 1, 2 * n, 17, 16])}[how]
        if how == 'tonext' and arg and arg < n: arg = n
        kw = {} if how == 'default' else {how: arg} if how != 'tonext' else dict(tonext=True)
        if how == 'tonext' and arg: kw['tonext_min'] = arg
        if how in ('default', 'nadd') and rng.random() < .3: kw['tonext'] = False
        if where == 'start' or rng.random() < .5: kw['where'] = where
        if axa or rng.random() < .5: kw['axis'] = axa
        x_ = lay(rng, a)
        r = rec('pad', lambda x: psig.pad_zeros(x, **kw), x_, how=how, arg=arg, where=where)
        if r is not None and r.dtype != x_.dtype: evs[-1]['o'] = {'s': [-3], 'd': []}
    rec('mirror', lambda x: psig.mirror(x, axis=axa) if axa or rng.random() < .5 else psig.mirror(x), lay(rng, a))
    # smoothing
    ks = sum(ker)
    for ed in ('m', 'c'):
        norm = rng.random() < .6
        k = np.array(ker, dtype=R([int, float])).reshape([-1 if i == ax else 1 for i in range(len(shape))])
        kw = {} if ed == 'm' and rng.random() < .5 else dict(edge=ed)
        if not norm: kw['norm'] = False
        if axa: kw['axis'] = axa
        mu = R(LA) if k.dtype.kind == 'f' else 1
        if mu != 1: k = k * mu
        kb = k.copy()
        rec('smooth', lambda x: psig.smooth(x, k, **kw), lay(rng, a), lambda r: nd(r, ks if norm else 1 / mu), k=ker, edge=ed, src='array')
        evs[-1]['kept'] &= bool(np.array_equal(k, kb))
    # a whole trajectory
    axa = 0
    nstep, nat = R([1, 2, 3, 5, 9]), R([1, 2])
    def ints(*s): return np.array([rng.randint(-50, 50) for i in range(int(np.prod(s)))]).reshape(s)
    dt = R([int, float, float])
    tu = R(LA) if dt is float else 1
    # triclinic cells vary with time
    tr = crys.Trajectory(symbols=['H', 'O'][:nat], coords=ints(nstep, nat, 3).astype(dt), cell=(np.eye(3)[None, ...] * 100 + ints(nstep, 3, 3)).astype(dt),
                         etot=ints(nstep).astype(dt), forces=ints(nstep, nat, 3).astype(dt), stress=ints(nstep, 3, 3).astype(dt), timestep=2.0, set_all_auto=rng.random() < .5)
    tr.cryst_const, tr.velocity, tr.ekin = ints(nstep, 6).astype(dt), ints(nstep, nat, 3).astype(dt), ints(nstep).astype(dt)
    for q in ('coords', 'cell', 'etot', 'forces', 'stress', 'cryst_const', 'velocity', 'ekin'):
        if tu != 1: setattr(tr, q, getattr(tr, q) * tu)
    kk = np.array(ker, dtype=float) * R(LA)
    meth = R([1, 2, None])
    keepk, before = kk.copy(), {q: np.copy(getattr(tr, q)) for q in ('coords', 'cell', 'etot', 'forces', 'stress', 'cryst_const', 'velocity', 'ekin')}
    x, s = call(lambda: crys.smooth(tr, kk, method=meth) if meth else crys.smooth(tr, kk))
    kept = bool(np.array_equal(kk, keepk) and all(np.array_equal(getattr(tr, q), before[q]) for q in before))
    for q in before:
        evs.append(dict(op='smooth', src='traj%s' % (meth or 1), k=ker, edge='m', a=nd(before[q] / tu), axis=0, exc=x, o=nd(getattr(s, q) / tu, ks) if not x else nd(None), kept=kept))
    if not x:
        for q in ('symbols', 'timestep', 'nstep', 'natoms'):
            evs.append(dict(op='rest', name=q, same=bool(getattr(tr, q, None) is None or getattr(s, q, None) == getattr(tr, q)) ))
        evs.append(dict(op='rest', name='type', same=type(s) is type(tr)))
    # peaks
    for rep in range(3):
        y = [rng.randint(-4, 9) for i in range(R([1, 2, 3, 4, 6, 12, 20]))]
        if rng.random() < .3: y = [v // 4 for v in y]
        lim = [] if rng.random() < .4 else [R(y + [0, 5, min(y) - 1])]
        ya, fy = lay(rng, np.array(y)), 1
        if ya.dtype.kind == 'f': fy = R(LA); ya = ya * fy
        x, r = call(lambda: psig.find_peaks(ya, ymin=lim[0] * fy) if lim else psig.find_peaks(ya))
        evs.append(dict(op='peaks', y=y, lim=lim, exc=x, idx=[int(i) for i in r[0]] if not x else [], kept=bool(np.array_equal(ya, np.array(y) * fy) and (x or r[1] is None))))
    # positions: pieces of parabolas
    for rep in range(3):
        sp, kd = R([(1, 2), (2, 2), (2, 3), (3, 3), (3, 2), (3, 4), (2, 3)])
        y = []
        for seg in range(R([1, 1, 2, 3])):
            l, r_ = sp + rng.randint(0, 2), sp + rng.randint(0, 2)
            if seg == 0 and rng.random() < .6: l = rng.randint(1, 3)
            if rng.random() < .3: r_ = rng.randint(1, 3)
            cc, aa, bb = rng.randint(-1, 1), R([1, 2, 3]), rng.randint(5, 40)
            aa *= 3
            y += [bb - aa * i * i + cc * i for i in range(-l, r_ + 1)]
            if r_ < sp: break
        h, x0 = R([1, 2, 8]), R([0, -3, 16])
        fx, fy = R(LA), R(LA)
        xa = (x0 + h * np.arange(len(y))) / 8. * fx
        lim = [] if rng.random() < .6 else [R([min(y) - 1, 0, 10])]
        ya = np.array(y, float) * fy
        kw = dict(k=kd, spread=sp)
        if (sp, kd) == (2, 3) and rng.random() < .6: kw = {}
        if lim: kw['ymin'] = lim[0] * fy
        x, r = call(lambda: psig.find_peaks(ya, xa, **kw))
        ev = dict(op='refine', y=y, lim=lim, k=kd, spread=sp, x0=x0, h=h, exc=x, idx=[], pos=[])
        if not x:
            ev['idx'] = [int(i) for i in r[0]]
            if len(r[1]) == len(r[0]) and all(0 < i < len(y) - 1 for i in ev['idx']):
                ev['pos'] = [deep(p / fx * 8 * 2 * (y[i - 1] - 2 * y[i] + y[i + 1])) for i, p in zip(ev['idx'], r[1])]
        evs.append(ev)
    # small helpers
    v = [rng.randint(-20, 20) for i in range(R([2, 3, 6]))]
    if max(v) > min(v):
        fv = R(LA)
        va = np.array(v, float) * fv
        cp = R([True, False])
        x, r = call(lambda: psig.scale(va, copy=cp))
        evs.append(dict(op='scale', v=v, exc=x, o=deep(r, max(v) - min(v)) if not x else [], kept=not cp or np.array_equal(va, np.array(v, float) * fv)))
    i, ad = rng.randint(0, 30), R([1, -1])
    evs.append(dict(op='odd', n=i, add=ad, o=int(psig.odd(i, add=ad) if ad == -1 or rng.random() < .5 else psig.odd(i))))
    M, sy = R([1, 2, 3, 4, 7, 10, 11]), rng.random() < .6
    D = M if sy or M % 2 else M + 1
    x, r = call(lambda: psig.welch(M, sym=sy))
    evs.append(dict(op='welch', n=M, sym=sy, o=deep(r, max(D - 1, 1)**2) if not x else []))
    if M > 1:
        sd = R([1, 2, 3])
        x, r = call(lambda: psig.lorentz(M, std=sd, sym=sy))
        q = [(2 * j - (D - 1))**2 + 4 * sd * sd for j in range(M)]
        evs.append(dict(op='lorentz', n=M, c=min((2 * j - (D - 1))**2 + 4 * sd * sd for j in range(D)), o=[deep(w * z) for w, z in zip(r, q)] if not x and len(r) == M else []))
    return {}, evs


if __name__ == '__main__':
    main(globals())
