import numpy as np
from _base import *
from pwtools import num, crys, comb

WORKERS = 8
NIL = 99


def psl(s):
    n = lambda x: None if x == NIL else x
    return s['a'] if s['k'] == 'ix' else slice(n(s['a']), n(s['b']), n(s['c']))


def from_mc(x):
    h = sum((i + 1) * n for i, n in enumerate(x['shape'])) + 3 * x['axis'] + x['sl']['a'] * 5 + x['sl']['c'] * 7 + x['sl']['b'] + sum(x['axs']) * 2
    if len(x['shape']) > 1 and h % ((13 if len(x['shape']) == 2 else 61) if TIER == 'quick' else 7): return []
    return dict(shape=x['shape'], axis=x['axis'], sl=x['sl'], axs=x['axs'], seed=h, kind='mc')


def gen(rng, tier):
    return [dict(kind='rnd', seed=rng.randrange(10**6)) for i in range(120 if tier == 'quick' else 1500)]


def rsl(rng, n):
    if rng.random() < .25: return dict(k='ix', a=rng.randrange(-n, n), b=0, c=0)
    o = lambda *c: rng.choice((NIL,) + c)
    return dict(k='sl', a=o(0, 1, -1, -n, n, rng.randint(-n, n)), b=o(0, n, -1, n + 2, rng.randint(-n, n)), c=o(1, 2, -1, -2, 3))


LA = 1.0        # unit of the floating point inputs of a scenario: no float32, no rounding to an integer survives it


def u(a): return LA if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else 1


def arr(s, rng, lo=-9, hi=9, scale=True):
    a = np.array([rng.randint(lo, hi) for k in range(int(np.prod(s)))], dtype=rng.choice([int, float])).reshape(s)
    if scale and a.dtype.kind == 'f': a = a * LA
    q = rng.random()
    if q < .25: a = np.asfortranarray(a)
    elif q < .5 and a.ndim > 1: a = np.ascontiguousarray(a.T).T
    return a


def run(sc, work):
    global LA
    rng = random.Random(sc['seed'])
    evs = []
    R = rng.choice
    LA = R([1.0, .7, 1 / 3, 13.01, 1e-9, 1e7])
    if sc['kind'] == 'mc': s, axis, sl, axs = sc['shape'], sc['axis'], sc['sl'], sc['axs']
    else:
        s = [R([1, 2, 3, 4, 5]) for k in range(R([1, 2, 2, 3, 3, 4]))]
        axis = rng.randrange(-len(s), len(s))
        sl = rsl(rng, s[axis])
        axs = rng.sample(range(len(s)), rng.randint(0, len(s)))
    N = len(s)
    a = arr(s, rng)
    def add(op, fn, f=None, keep=(), **kw):
        b = [np.array(k) for k in keep]
        x, o = call(fn)
        evs.append(dict(kw, op=op, exc=x, o=nd(None) if x else f(o) if f else nd(o / u(keep[0]) if keep and u(keep[0]) != 1 else o), kept=all(np.array_equal(p, q) for p, q in zip(b, keep))))
        return o
    def view(o):
        if not isinstance(o, np.ndarray) or o.ndim == 0 or o.size == 0: return 'any'
        return 'view' if np.shares_memory(o, a) else 'copy'
    # take
    for c in (False, True):
        o = add('take', lambda: num.slicetake(a, psl(sl), axis=axis, copy=c) if c or rng.random() < .5 else num.slicetake(a, psl(sl), axis=axis), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), sl=sl, axis=axis, sls=[], copy=c)
        evs[-1]['view'] = view(o)
    sls = [rsl(rng, n) for n in s]
    o = add('take', lambda: num.slicetake(a, R([list, tuple])(map(psl, sls))), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), sl=sl, axis=0, sls=sls, copy=False)
    evs[-1]['view'] = view(o)
    # put
    for form in ('ax', 'all'):
        L = [slice(None)] * N
        L[axis] = psl(sl)
        if form == 'all': L = [psl(q) for q in sls]
        t = a[tuple(L)]
        for sc_ in (True, False):
            b = float(rng.randint(100, 200)) * u(a) if sc_ or np.shape(t) == () else (arr(np.shape(t), rng, 100, 900, False) * u(a)).astype(a.dtype)
            w = a.copy(order=R('KCF'))
            o = add('put', lambda: num.sliceput(w, b, psl(sl), axis=axis) if form == 'ax' else num.sliceput(w, b, R([list, tuple])(map(psl, sls))), lambda o: nd(o / u(a)), a=nd(a / u(a) if u(a) != 1 else a), b=nd(b / u(a)), sl=sl, axis=axis, sls=[] if form == 'ax' else sls)
            evs[-1]['same'] = o is w
    # extend
    for ax in {axis, N, -1, 0}:
        if not -1 <= ax <= N: continue
        n = R([1, 2, 3])
        add('extend', lambda: num.extend_array(a, n, axis=ax) if ax or rng.random() < .5 else num.extend_array(a, n), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), n=n, axis=ax)
    # sum
    add('sum', lambda: num.sum(a), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), axs=[], keep_=0); evs[-1]['keep'] = False
    for keepd in (False, True):
        e = dict(keepdims=True) if keepd else {}
        add('sum', lambda: num.sum(a, axis=axis, **e), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), axs=[axis]); evs[-1]['keep'] = keepd
        if axs:
            L = [x - N if rng.random() < .4 else x for x in axs]
            rng.shuffle(L)
            add('sum', lambda: num.sum(a, axis=R([list, tuple])(L), **e), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a), axs=L); evs[-1]['keep'] = keepd
    # rms
    ni = R(['all', 1, 4, 2.5])
    m = a.size if ni == 'all' else ni
    add('rms', lambda: num.rms(a, nitems=ni) if ni != 'all' or rng.random() < .5 else num.rms(a), lambda o: nd(o**2 * m / u(a)**2), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a))
    a3 = arr([R([1, 2, 3, 4]) for k in range(3)], rng)
    ax = R([-1, 0, 1, 2])
    m3 = a3.size // a3.shape[ax] if ni == 'all' else ni
    add('rms3d', lambda: num.rms3d(a3, axis=ax, nitems=ni), lambda o: nd(o**2 * m3 / u(a3)**2), keep=(a3,), a=nd(a3 / u(a3)), axis=ax)
    # deviation of all steps from one of them
    xs = arr([R([1, 2, 3, 5]), R([1, 1, 2, 3, 4]), 3], rng, scale=False)
    lu = R([1, LA])
    ref = rng.randint(-len(xs), len(xs) - 1)
    tr = crys.Trajectory(coords=xs.astype(R([int, float])) if lu == 1 else xs * lu, symbols=['H'] * xs.shape[1])
    add('rmsd', lambda: crys.rmsd(tr, ref_idx=ref) if ref or rng.random() < .5 else crys.rmsd(tr), lambda o: nd(o**2 * xs.shape[1] / lu**2), keep=(tr.coords,), a=nd(xs), ref=ref)
    # points
    nd_ = R([1, 2, 3, 4])
    p, q = arr([R([1, 2, 5]), nd_], rng, scale=False) * LA, arr([R([1, 3, 4]), nd_], rng, scale=False) * LA
    add('distsq', lambda: num.distsq(p, q), lambda o: nd(o / LA**2), keep=(p, q), a=nd(p / LA), b=nd(q / LA))
    # vectors
    k = R([1, 2, 3, 5])
    x, y = arr([k], rng), arr([k], rng)
    if u(x) != u(y): y = (y / u(y)).round().astype(int) * u(x) if u(x) != 1 else (y / u(y)).round()
    n, ep = R([1, 1, 2, 3, 7, 10]), rng.random() < .5
    D = max(n - 1, 1) if ep else n
    add('vlin', lambda: num.vlinspace(x, y, n, endpoint=ep), lambda o: nd(o * D / u(x)), keep=(x, y), x=nd(x / u(x))["d"], y=nd(y / u(x))["d"], num=n, endp=ep)
    uu = arr([R([1, 2, 4])], rng, scale=False) * u(x)
    add('mesh', lambda: np.array(num.meshgridt(x, uu)), lambda o: nd(o / u(x)), keep=(x, uu), x=nd(x / u(x))["d"], y=nd(uu / u(x))["d"])
    add('norm', lambda: num.norm(x), lambda o: nd(o**2 / u(x)**2), keep=(x,), a=nd(x / u(x)))
    if a.max() != 0: add('normalize', lambda: num.normalize(a), lambda o: nd(o * a.max() / u(a)), keep=(a,), a=nd(a / u(a) if u(a) != 1 else a))
    w = np.array([R([-2, 0, 1, 3, 3, 8, 9, -7]) for i in range(R([0, 1, 4, 9]))], dtype=int)
    v = np.array([R([-2, 0, 1, 3, 8, 5, 12]) for i in range(R([0, 1, 2, 6, 14]))], dtype=int)
    eps = R([0, 0, 1, 2, 3])
    fu = R([1, .125])
    kw = {} if eps == 0 else dict(eps=(eps if fu == 1 else eps - .5) * fu)
    if eps and fu != 1: eps = eps            # |a-b| < eps - 1/2 on integers is |a-b| < eps
    xx, o = call(lambda: num.match_mask(w * fu if eps else w, v * fu if eps else v, fullout=True, **kw))
    x2, o2 = call(lambda: num.match_mask(w * fu if eps else w, v * fu if eps else v, **kw))
    evs.append(dict(op='match', x=w.tolist(), y=v.tolist(), eps=eps, exc=xx or x2, mask=[bool(z) for z in o2] if not x2 else [], idx=[int(z) for z in o[1]] if not xx else []))
    if not xx and not x2 and [bool(z) for z in o[0]] != evs[-1]['mask']: evs[-1]['mask'] = ['differs']
    mlt = R([1, 2, 3, 7, 10])
    z = rng.randint(-30, 60)
    add('round', lambda: num.round_up_next_multiple(z, mlt), x=z, m=mlt)
    M = [[R([0, 1]) for j in range(R([1, 2, 3]))] ]
    M = [[R([0, 1]) for j in range(len(M[0]))] for i in range(R([1, 2, 5]))]
    what = R(['row', 'col'])
    add('uniq', lambda: comb.unique2d(np.array(M) if rng.random() < .7 else M, what), m=M, what=what)
    npt, ns = R([1, 2, 3, 4, 7]), R([1, 2, 3, 4])
    co = [[rng.randint(-20, 20), rng.randint(-9, 9), rng.randint(-2, 2)] for j in range(ns)]
    S = [[c[0] + c[1] * t + c[2] * t * t for c in co] for t in range(npt)]
    for r in S: rng.shuffle(r)
    od, rp = R([0, 1, 2, 2]), R([1, 1, 2, 3])
    so = R([1, .7, 13.01])
    SA = np.array(S, dtype=float) * so
    kw = dict(order=od, repeat=rp) if (od, rp) != (2, 1) or rng.random() < .5 else {}
    add('order', lambda: num.order_similar(SA, **kw), lambda o: nd(o / so), keep=(SA,), m=S, ord=od, rep=rp)
    xs = sorted(rng.randint(-9, 9) for i in range(R([2, 3, 6])))
    P = np.array(xs, float)[:, None] * R([1, .25, 2.**-30])
    add('inner', lambda: num.inner_points_mask(P), nd, keep=(P,), x=xs)
    return {}, evs


if __name__ == '__main__':
    main(globals())
