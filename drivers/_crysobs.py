"""Observation of Structure / Trajectory objects as integers (shared by crys drivers)."""
import numpy as np
from _base import snap, snapr, INEXACT

SC = dict(coords=32, coords_frac=16, cell=2, forces=8, stress=8, velocity=256,
          etot=8, ekin=8, pressure=24, temperature=1.0/1024, time=4, volume=64)
STEP = ['coords', 'coords_frac', 'cell', 'cryst_const', 'forces', 'stress', 'velocity',
        'etot', 'ekin', 'pressure', 'temperature', 'time', 'volume']
OTHER = ['symbols', 'natoms', 'nstep', 'timestep', 'symbols_unique', 'order', 'typat', 'znucl_unique',
         'znucl', 'ntypat', 'nspecies', 'mass', 'mass_unique']
RANK = dict(coords=2, coords_frac=2, cell=2, cryst_const=1, forces=2, stress=2, velocity=2,
            etot=0, ekin=0, pressure=0, temperature=0, time=0, volume=0)


# unit of time: all times are tu * model time (velocity, kinetic energy and temperature scale with it)
TU = [1.0]
TPOW = dict(time=-1, velocity=1, ekin=2, temperature=2)


# unit of length and of the other quantities, so that no value is a short binary fraction
LU = [1.0]
LPOW = dict(coords=-1, cell=-1, velocity=-1, ekin=-2, temperature=-2)
XU = {}


def tfac(name):
    return TU[0] ** TPOW.get(name, 0) * LU[0] ** LPOW.get(name, 0) / XU.get('stress' if name == 'pressure' else name, 1.0)


def cclen(x):
    """lengths in the unit of length, angles as they are"""
    return [v / LU[0] for v in x[:3]] + list(x[3:])


# exact contents seen in a run -> number
TOK = {}


def toks(o, name):
    v = getattr(o, name)
    L = [v] if np.ndim(v) == RANK[name] else v if np.ndim(v) == RANK[name] + 1 else [np.nan]
    return [TOK.setdefault(np.asarray(x, dtype=float).tobytes(), len(TOK) + 1) for x in L]


def ints(a, sc):
    return [snapr(x, sc) for x in np.asarray(a, dtype=float).ravel()]


def ccg(cc):
    a, b, c = cc[:3]
    al, be, ga = [np.cos(x * np.pi / 180) for x in cc[3:]]
    return [a * a, b * b, c * c, b * c * al, a * c * be, a * b * ga]


def steps(o, name, fac=1):
    v = getattr(o, name)
    v = np.asarray(v, dtype=float)
    nd = RANK[name]
    if v.ndim == nd:
        lst = [v]
    elif v.ndim == nd + 1:
        lst = list(v)
    else:
        return [[INEXACT, v.ndim]]
    if name == 'cryst_const':
        return [ints(np.array(ccg(cclen(x))) * fac, 4) for x in lst]
    if name == 'volume':
        return [ints((x / LU[0] ** 3) ** 2, 64) for x in lst]
    return [ints(x * fac * tfac(name), SC[name]) for x in lst]


def fine(o, name, fac):
    """do the values lie on the grid as exactly as floats can?"""
    v = getattr(o, name)
    x = (np.array([cclen(q) for q in np.atleast_2d(np.asarray(v, dtype=float))]) if name == 'cryst_const' else np.asarray(v, dtype=float) * tfac(name)).ravel() * fac * SC.get(name, 4)
    return bool(np.isfinite(x).all() and (abs(x - np.round(x)) < 1e-7).all())


def present(o):
    return sorted(n for n in STEP + OTHER if getattr(o, n, None) is not None)


def obs(o, fac=1):
    """fac: multiply stepwise values (number of averaged steps)"""
    P = present(o)
    d = dict(kind='T' if o.is_traj else 'S', P=P)
    A = {n: (steps(o, n, fac) if n in P else []) for n in STEP}
    A['ccraw'] = [ints(np.array(cclen(x)) * fac, 1000) for x in np.atleast_2d(np.asarray(o.cryst_const, dtype=float))] if 'cryst_const' in P else []
    A['volraw'] = [ints(x / LU[0] ** 3 * fac, 1000) for x in np.atleast_1d(np.asarray(o.volume, dtype=float))] if 'volume' in P else []
    # cell metric and coords . cell^T (exact for every cell)
    if 'cell' in P:
        c = np.asarray(o.cell, dtype=float) / LU[0]
        c = c if c.ndim == 3 else c[None]
        A['G'] = [ints(x @ x.T, 4) for x in c]
        A['cellup'] = [ints([x[0, 1], x[0, 2], x[1, 2]], 1000) + [1 if np.linalg.det(x) > 0 else 0] for x in c]
        if 'coords' in P:
            k = np.asarray(o.coords, dtype=float) / LU[0]
            k = k if k.ndim == 3 else k[None]
            if len(k) == len(c):
                A['cdot'] = [ints(y @ x.T, 64) for x, y in zip(c, k)]
        if 'coords_frac' in P:
            k = np.asarray(o.coords_frac, dtype=float)
            k = k if k.ndim == 3 else k[None]
            if len(k) == len(c):
                A['fdot'] = [ints(y @ x @ x.T, 64) for x, y in zip(c, k)]
    A.setdefault('fdot', []); A.setdefault('G', []); A.setdefault('cdot', []); A.setdefault('cellup', [])
    d['A'] = A
    d['fine'] = [n for n in STEP if n in P and n != 'volume' and fine(o, n, fac)]
    d['tok'] = {n: (toks(o, n) if n in P else []) for n in STEP}
    # rank of the stored arrays: structure: RANK, trajectory: RANK+1
    d['badrank'] = [n for n in STEP if n in P and np.ndim(getattr(o, n)) != RANK[n] + (1 if o.is_traj else 0)]
    g = lambda n: getattr(o, n, None)
    num = lambda v: -1 if v is None else (int(v) if int(v) == v else INEXACT)
    d['N'] = {n: num(g(n)) for n in ('natoms', 'nstep', 'ntypat')}
    d['L'] = {n: [int(x) for x in (g(n) or [])] for n in ('typat', 'znucl', 'znucl_unique')}
    d['S'] = {n: list(g(n) or []) for n in ('symbols', 'symbols_unique')}
    d['D'] = {n: sorted([k, int(v)] for k, v in (g(n) or {}).items()) for n in ('order', 'nspecies')}
    d['M'] = {n: ints(g(n), 1000) if g(n) is not None else [] for n in ('mass', 'mass_unique')}
    d['dt'] = snapr(g('timestep') / TU[0], 4) if g('timestep') is not None else 0
    # reduced kinetic energy: ekin*eV/(amu*(Ang/fs)^2), CODATA constants
    if 'ekin' in P:
        f = 1.602176487e-19 / (1.660538782e-27 * 1e10)
        d['ekred'] = [snapr(x * f * tfac('ekin'), 32000) for x in np.atleast_1d(np.asarray(g('ekin'), dtype=float))]
    else:
        d['ekred'] = []
    if 'ekin' in P and 'temperature' in P and o.is_traj:
        e = np.atleast_1d(g('ekin')); t = np.atleast_1d(g('temperature'))
        # 3/2 N kb T / eV - ekin, relative to max(1,ekin), in 1e-6
        d['teq'] = [snapr((1.5 * o.natoms * 1.3806504e-23 * y / 1.602176487e-19 - x) / max(1.0, abs(x)), 1e4)
                    for x, y in zip(e, t)] if len(e) == len(t) and o.natoms else []
    else:
        d['teq'] = []
    return d
