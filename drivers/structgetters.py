import numpy as np
from _base import *
from pwtools.crys import Structure, Trajectory
from pwtools import atomic_data

SY = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Fe', 'Ca']
Z = dict(H=1, C=6, N=7, O=8, Al=13, Si=14, Fe=26, Ca=20)
INP = ['cell', 'cryst_const', 'coords', 'coords_frac', 'symbols', 'stress', 'volume', 'forces', 'etot', 'pressure']
TRA = ['timestep', 'velocity', 'ekin', 'temperature']
NAMES = ['cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'pressure', 'stress', 'symbols', 'volume', 'mass', 'mass_unique', 'natoms',
         'nspecies', 'ntypat', 'order', 'symbols_unique', 'typat', 'znucl', 'znucl_unique']
TNAMES = NAMES + ['ekin', 'temperature', 'timestep', 'velocity', 'nstep', 'time']
OPS = ['try', 'try', 'check', 'check', 'assert_set', 'is_set', 'assert', 'return', 'set_all']


def from_mc(x):
    return dict(kind=x['kind'], n=x['n'], given=sorted(x['given']), ops=x['ops'], seed=len(repr(x)))


def gen(rng, tier):
    res = []
    for i in range(220 if tier == 'quick' else 2500):
        kind = rng.choice(['struct', 'traj'])
        inp = INP + (TRA if kind == 'traj' else [])
        p = rng.choice([.25, .5, .75])
        given = [a for a in inp if rng.random() < p]
        names = NAMES if kind == 'struct' else TNAMES
        ops = []
        for j in range(rng.randint(2, 9)):
            op = rng.choice(OPS)
            many = rng.random() < .35 and op in ('try', 'check', 'assert_set', 'is_set', 'assert')
            at = rng.sample(names, rng.randint(1, 5)) if many else [rng.choice(names)]
            ops.append(dict(op=op, attrs=names if op == 'set_all' else at, lst=many))
        res.append(dict(kind=kind, n=1 if kind == 'struct' else rng.choice([1, 2, 3, 4, 5]), given=given, ops=ops, seed=rng.randrange(10**6)))
    return res


def reference(sc):
    """consistent data, every attribute from its definition"""
    rng = random.Random(sc['seed'])
    n = sc['n']; nat = rng.randint(1, 4)
    R = dict(symbols=[rng.choice(SY) for i in range(nat)])
    # standard orientation, such that cell <-> cryst_const is unique
    cell = np.array([[[rng.uniform(3, 6), 0, 0], [rng.uniform(-1, 1), rng.uniform(3, 6), 0], [rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(3, 6)]] for t in range(n)])
    frac = np.array([[[rng.uniform(-1, 2) for k in range(3)] for i in range(nat)] for t in range(n)])
    R['cell'], R['coords_frac'] = cell, frac
    R['coords'] = np.array([np.dot(f, c) for f, c in zip(frac, cell)])
    ang = lambda u, v: np.degrees(np.arccos(np.dot(u, v) / np.sqrt((u**2).sum() * (v**2).sum())))
    R['cryst_const'] = np.array([[np.sqrt((v**2).sum()) for v in c] + [ang(c[1], c[2]), ang(c[0], c[2]), ang(c[0], c[1])] for c in cell])
    R['volume'] = np.array([c[0, 0] * c[1, 1] * c[2, 2] for c in cell])
    R['stress'] = np.array([[[rng.uniform(-5, 5) for k in range(3)] for i in range(3)] for t in range(n)])
    R['pressure'] = np.array([(s[0, 0] + s[1, 1] + s[2, 2]) / 3 for s in R['stress']])
    R['forces'] = np.array([[[rng.uniform(-5, 5) for k in range(3)] for i in range(nat)] for t in range(n)])
    R['etot'] = np.array([rng.uniform(-50, 5) for t in range(n)])
    sy = R['symbols']
    u = sorted(set(sy))
    R.update(natoms=nat, symbols_unique=u, order={s: i + 1 for i, s in enumerate(u)}, typat=[u.index(s) + 1 for s in sy], nspecies={s: sy.count(s) for s in u},
             ntypat=len(u), znucl=[Z[s] for s in sy], znucl_unique=[Z[s] for s in u], mass=np.array([atomic_data.pt[s]['mass'] for s in sy]),
             mass_unique=np.array([atomic_data.pt[s]['mass'] for s in u]))
    if sc['kind'] == 'traj':
        dt = rng.choice([.5, 1., 2., .7, 1 / 3])
        R.update(timestep=dt, nstep=n, time=np.arange(n) * dt)
        c = R['coords']
        v = np.zeros_like(c)
        if n >= 3:
            v[1:-1] = (c[2:] - c[:-2]) / (2 * dt)
            v[0], v[-1] = (c[1] - c[0]) / dt, (c[-1] - c[-2]) / dt
            # the end points as documented in velocity_traj(), whatever they are: not judged here, but they must be what a fresh object gives
            w = Trajectory(coords=c.copy(), timestep=dt).velocity
            if w is not None and w.shape == v.shape: v[0], v[-1] = w[0], w[-1]
        R['velocity'] = v
        amu, eV, kb = 1.66053906660e-27, 1.602176634e-19, 1.380649e-23
        R['ekin'] = (v**2 * R['mass'][None, :, None]).sum(axis=(1, 2)) / 2 * amu * 1e10 / eV
        R['temperature'] = R['ekin'] * eV / nat / kb * 2 / 3
        R['nspecies'] = R['nspecies']
    else:
        for k in ('cell', 'coords_frac', 'coords', 'cryst_const', 'volume', 'stress', 'pressure', 'forces', 'etot'): R[k] = R[k][0]
    return R


def same(a, b, name=''):
    tol = 1e-5 if name in ('ekin', 'temperature') else 1e-9         # (constants of nature)
    if isinstance(b, (list, dict, int, str)) and not isinstance(b, bool):
        return a == b and type(a) == type(b) if not isinstance(b, int) else int(a) == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == 'f' and bool((abs(a - b) <= tol * (abs(b) + 1e-3)).all())


def run(sc, work):
    ref = reference(sc)
    traj = sc['kind'] == 'traj'
    cls = Trajectory if traj else Structure
    names = TNAMES if traj else NAMES
    runs = {a: 0 for a in names}
    ns = {}
    for a in names:
        def get(self, a=a):
            runs[a] += 1
            return getattr(cls, 'get_' + a)(self)
        if hasattr(cls, 'get_' + a): ns['get_' + a] = get
    cp = lambda v: v.copy() if hasattr(v, 'copy') else v
    o = type(cls.__name__, (cls,), ns)(set_all_auto=False, **{a: cp(ref[a]) for a in sc['given']})

    def ob(a):
        v = getattr(o, a, None)
        if v is None: return dict(t='none', v=0)
        return dict(t='i', v=1 if same(v, ref[a], a) else 99)
    init = {a: ob(a) for a in names}
    evs = []
    for op in sc['ops']:
        k, at, lst = op['op'], op['attrs'], op.get('lst', False)
        e = dict(op=k, attrs=at, v=0)
        for a in runs: runs[a] = 0
        res = None
        if k == 'set_all': exc, res = call(o.set_all)
        elif k == 'return': exc, res = call(o.get_return_attr, at[0])
        else:
            name = {'try': 'try_set_attr', 'check': 'check_set_attr', 'assert_set': 'assert_set_attr', 'is_set': 'is_set_attr', 'assert': 'assert_attr'}[k]
            exc, res = call(getattr(o, name + '_lst'), at) if lst else call(getattr(o, name), at[0])
        e['exc'] = exc
        e['res'] = res if isinstance(res, bool) else False
        e['rv'] = dict(t='none', v=0) if res is None or k != 'return' else dict(t='i', v=1 if same(res, ref[at[0]], at[0]) else 99)
        e['vals'] = {a: ob(a) for a in names}
        e['runs'] = dict(runs)
        evs.append(e)
    return dict(kind=sc['kind'], n=sc['n'], init=init), evs


if __name__ == '__main__':
    main(globals())
