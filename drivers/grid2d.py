import numpy as np
from _base import *
from pwtools import num, mpl

WORKERS = 8
BIG = 2**53


def from_mc(x):
    h = x['h']
    k = sum((i + 3) * (len(e['form']) * 5 + len(e['part']) * 3 + len(e['zform']) + e['n'] * 7 + e['m'] + e['t']) for i, e in enumerate(h))
    if len(h) == 2 and k % 3: return []
    if len(h) > 2 and k % 97: return []
    return dict(kind='h', h=h, seed=k)


def gen(rng, tier):
    out = []
    for i in range(80 if tier == 'quick' else 900):
        h, z, sz = [], [], []
        for k in range(rng.randint(2, 7)):
            ops = ['new', 'new'] if not sz else ['new', 'upd', 'upd', 'upd', 'copy', 'poke']
            op = rng.choice(ops)
            f, zf = rng.choice(['axes', 'grid', 'loop', 'points']), rng.choice(['none', 'Z', 'zz'])
            n, m, part, t = rng.randint(1, 5), rng.randint(1, 5), 'both', 0
            if op != 'new':
                t = rng.randrange(len(sz)) + 1
                if op == 'copy': sz.append(sz[t - 1]); z.append(z[t - 1]); part = 'none'; zf = 'none'
                elif op == 'upd':
                    if rng.random() < .6: n, m = sz[t - 1]
                    if (n, m) == sz[t - 1] and f != 'points': part = rng.choice(['both', 'x', 'y', 'none'])
                    if part == 'none' and zf == 'none': zf = 'zz'
                    if zf == 'none' and z[t - 1] and (n, m) != sz[t - 1]: zf = rng.choice(['Z', 'zz'])
                    sz[t - 1] = (n, m); z[t - 1] |= zf != 'none'
                else: n, m, part, zf = *sz[t - 1], 'both', 'Z' if z[t - 1] else 'none'
            else: sz.append((n, m)); z.append(zf != 'none')
            h.append(dict(op=op, t=t, form=f, part=part, zform=zf, n=n, m=m))
        out.append(dict(kind='h', h=h, seed=rng.randrange(10**6)))
    out += [dict(kind='nd', seed=rng.randrange(10**6)) for i in range(40 if tier == 'quick' else 600)]
    return out


def forms(d, la):
    ints = lambda a: [] if a is None else snap_(a, la)
    return dict(x=ints(d.x), y=ints(d.y), nx=int(d.nx), ny=int(d.ny), X=ints(d.X), Y=ints(d.Y), xx=ints(d.xx), yy=ints(d.yy), XY=ints(d.XY),
                Z=ints(d.Z), zz=ints(d.zz))


def snap_(a, la):
    a = np.asarray(a)
    if a.ndim == 1: return [snap(v / la, 4) for v in a]
    return [snap_(v, la) for v in a]


def run(sc, work):
    rng = random.Random(sc['seed'])
    if sc['kind'] == 'nd': return run_nd(rng)
    dt = rng.choice([float, float, int])
    la = rng.choice([1, .7, 1 / 3, 13.01, 1e-9, 1e7]) if dt is float else 1        # the unit: not on the float32 grid
    f = lambda v: np.array(v, dtype=float) / 4 * la if dt is float else np.array(v, dtype=int)
    sf = 1 if dt is float else 4
    cs, evs = [], []
    for e in sc['h']:
        x = rng.sample(range(-40, 40), e['n']); y = rng.sample(range(-40, 40), e['m'])
        if rng.random() < .4: x.sort(); y.sort()
        z = [[rng.randint(-999, 999) for j in y] for i in x]
        ax, ay, az = f(x), f(y), f(z).reshape(len(x), len(y))
        kw = {}
        X, Y = np.meshgrid(ax, ay, indexing='ij')
        xx, yy = X.ravel().copy(), Y.ravel().copy()
        P = {'axes': (('x', ax), ('y', ay)), 'grid': (('X', X.copy()), ('Y', Y.copy())), 'loop': (('xx', xx), ('yy', yy)), 'points': (('XY', np.array([xx, yy]).T),) * 2}[e['form']]
        if e['op'] in ('new', 'upd'):
            if e['part'] in ('both', 'x'): kw.update([P[0]])
            if e['part'] in ('both', 'y'): kw.update([P[1]])
            if e['zform'] == 'Z': kw['Z'] = az.copy()
            if e['zform'] == 'zz': kw['zz'] = az.ravel().copy()
        def go():
            if e['op'] == 'new': cs.append(mpl.Data2D(**kw))
            elif e['op'] == 'copy': cs.append(cs[e['t'] - 1].copy())
            elif e['op'] == 'upd': cs[e['t'] - 1].update(**kw)
            else:
                for n in ('x', 'y', 'xx', 'yy', 'X', 'Y', 'XY', 'Z', 'zz'):
                    a = getattr(cs[e['t'] - 1], n)
                    if a is not None: a[...] = 77
        q, _ = call(go)
        sq = lambda v: [int(k) * sf for k in v]
        zform = e['zform']
        ev = dict(op=e['op'], t=e['t'], part=e['part'], zform=zform, x=sq(x), y=sq(y), z=[sq(r) for r in z] if zform != 'none' else [], exc=q)
        if q: evs.append(dict(ev, show=[])); break
        ev['show'] = [forms(c, la) for c in cs]
        evs.append(ev)
        if e['op'] == 'poke': break                 # forms of the poked one are meaningless from here on
    return {}, evs


def run_nd(rng):
    evs = []
    for k in range(4):
        nax = rng.choice([1, 2, 2, 3, 4])
        axes = [sorted(rng.sample(range(-9, 10), rng.randint(1, 3))) for i in range(nax)]
        import itertools
        rows = [list(p) + [rng.randint(-9, 9)] for p in itertools.product(*axes)]
        # values which need the type of the table: integers beyond 2**53, complex numbers
        dt = rng.choice([int, float, 'big', complex])
        a2 = np.array(rows, dtype=int if dt == 'big' else dt)
        la = rng.choice([1, .25, 1 + 2.**-25]) if dt is float else 1
        if dt is float: a2 = a2 * la
        if dt == 'big': a2[:, -1] += BIG
        if dt is complex: a2[:, -1] *= 1 + 1j

        def dec(v):
            if dt == 'big': return int(v) - BIG
            if dt is complex: return int(v.real) if v.real == v.imag else 9999
            return snap(v / la)
        if rng.random() < .3: a2 = np.asfortranarray(a2)
        x, d = call(lambda: num.DataND(a2=a2))
        ev = dict(op='nd', rows=rows, exc=x, axes=[], shape=[], grid=[])
        if not x:
            ev['axes'] = [[snap(v.real / la) for v in a] for a in d.axes]
            ev['shape'] = list(d.an.shape)
            ev['grid'] = [[snap(d.axes[k][i].real / la) for k, i in enumerate(ix)] + [dec(v)] for ix, v in np.ndenumerate(d.an)]
        evs.append(ev)
        if len(rows) > 2 and nax > 1:
            i = rng.randrange(len(rows))
            cut = rows[:i] + rows[i + 1:]
            want = 1
            for c in range(nax): want *= len({r[c] for r in cut})
            if want != len(cut):
                x, d = call(lambda: num.DataND(a2=np.array(cut)))
                evs.append(dict(op='ndbad', rows=cut, exc=x))
    return {}, evs


if __name__ == '__main__':
    main(globals())
