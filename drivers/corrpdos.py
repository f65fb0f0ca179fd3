import numpy as np
from _base import *
from pwtools import signal as psig, pydos, crys, num
import _base


def deep(fn):
    def g(x, *a):
        if isinstance(x, (list, tuple)) or getattr(x, 'ndim', 0) > 0: return [g(y, *a) for y in x]
        return fn(x, *a)
    return g


snap, snapr = deep(_base.snap), deep(_base.snapr)

WORKERS = 8
FAC = [1., .25, 2.**-10, 8., .7, 1 / 3, 13.01, 1e-9, 1e7]          # unit of a velocity
MU = [1, 1, 1.00797, 1 / 3]                             # unit of a mass


def from_mc(x):
    h = sum((i + 2) * (c + 1) for i, c in enumerate(x['v'])) * 5 + x['o']['npad'] + 3 * x['o']['natoms'] + 7 * x['o']['tonext'] + 11 * x['o']['window'] + 13 * x['o']['usem']
    if h % (53 if TIER == 'quick' else 29): return []
    return dict(v=x['v'], o=x['o'], seed=h, kind='mc')


def gen(rng, tier):
    out = []
    for i in range(60 if tier == 'quick' else 1500):
        out.append(dict(kind='rnd', seed=rng.randrange(10**6), v=[rng.randint(-9, 9) for k in range(rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17]))],
                        o=dict(natoms=rng.choice([1, 1, 2, 3, 5]), usem=rng.random() < .5, npad=rng.choice([0, 1, 1, 2, 3]), tonext=rng.random() < .4, window=rng.random() < .4)))
    return out


def lay(rng, a):
    """same numbers, other memory layout / type"""
    q = rng.randrange(6)
    if q == 0: return np.asfortranarray(a)
    if q == 1:
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype); b[::2] = a
        return b[::2]
    if q == 2: return a.astype(int)
    if q == 3: return a[::-1].copy()[::-1]
    return a


def run(sc, work):
    rng = random.Random(sc['seed'])
    evs = []
    v = [int(k) for k in sc['v']]
    if not any(v): v[rng.randrange(len(v))] = rng.choice([1, 2, -3])
    n, o = len(v), sc['o']
    na = o['natoms']
    c0 = sum(k * k for k in v)
    # ---- 1d
    for method in range(1, 8):
        for norm in (True, False):
            a, fac = lay(rng, np.array(v, dtype=float)), 1.
            if a.dtype.kind == 'f': fac = rng.choice(FAC); a *= fac
            b = a.copy()
            def go():
                if method == 7 and norm and rng.random() < .5: return psig.acorr(a)
                return psig.acorr(a, method=method, norm=norm)
            x, r = call(go)
            evs.append(dict(op='acorr', v=v, method=method, norm=norm, exc=x, o=snap(r, c0 if norm else fac**-2) if not x else [], kept=bool(np.array_equal(a, b))))
    # ---- velocities
    vel = np.zeros((n, na, 3), int)
    for i in range(na):
        for k in range(3):
            vel[:, i, k] = v if (i, k) == (0, 0) else [rng.randint(-9, 9) for j in range(n)]
    m = [rng.choice([1, 2, 3, 16, 27]) for i in range(na)]
    use = m if o['usem'] else [1] * na
    C0 = int((vel**2 * np.array(use)[None, :, None]).sum())
    L = vel.tolist()
    mm = lambda: (rng.choice([np.array(m, float) * rng.choice(MU), np.array(m, int), np.array(m + m, float)[:na] * rng.choice(MU), (np.array([q for q in m for r in (0, 1)], float) * rng.choice(MU))[::2]]) if o['usem'] else None)
    for impl, method in [('py', 1), ('py', 2), ('py', 3), ('f', 1), ('f', 2)]:
        for th in ([0] if impl == 'py' else [0, 1, rng.choice([2, 3, 4, 7])]):
            a, ma = lay(rng, vel.astype(float)), mm()
            if impl == 'f' and rng.random() < .2: a = a.astype(np.float32)
            elif a.dtype.kind == 'f': a *= rng.choice(FAC)
            b, mb = a.copy(), None if ma is None else ma.copy()
            kw = dict(method=method)
            if ma is not None or rng.random() < .5: kw['m'] = ma
            if th: kw['nthreads'] = th
            if (impl, method) in (('py', 3), ('f', 2)) and rng.random() < .4: kw.pop('method')
            env = impl == 'f' and rng.random() < .2
            old = os.environ.get('OMP_NUM_THREADS')
            if env: os.environ['OMP_NUM_THREADS'] = str(rng.choice([1, 2, 3]))
            x, r = call(pydos.pyvacf if impl == 'py' else pydos.fvacf, a, **kw)
            if env: os.environ.pop('OMP_NUM_THREADS') if old is None else os.environ.update(OMP_NUM_THREADS=old)
            evs.append(dict(op='vacf', impl=impl, method=method, threads=th, usem=o['usem'], vel=L, m=use, exc=x, o=snap(r, C0) if not x else [],
                            kept=bool(np.array_equal(a, b) and (ma is None or np.array_equal(ma, mb)))))
    # masses which single precision can't hold
    hv = np.sign(vel[:4, :2]); hm = [2**24 + rng.choice([1, 3, 5]) if rng.random() < .7 else 2**23 + 2 * rng.randint(0, 3) for i in range(hv.shape[1])]
    H0 = int((hv**2 * np.array(hm)[None, :, None]).sum())
    for impl, method in ([('py', 1), ('py', 2), ('py', 3), ('f', 1), ('f', 2)] if H0 else []):
        x, r = call(pydos.pyvacf if impl == 'py' else pydos.fvacf, hv * rng.choice([1., .25]), m=np.array(hm, float), method=method)
        evs.append(dict(op='vacf', impl=impl, method=method, threads=0, usem=True, vel=hv.tolist(), m=hm, exc=x, o=snap(r, H0, 1e-4) if not x else [], kept=True))
    # ---- velocities from coordinates
    for endp in (True, False):
        e2 = rng.choice([0, 1, -1, 2])
        a, fac = lay(rng, vel.astype(float)), 1.
        if a.dtype.kind == 'f': fac = rng.choice(FAC); a *= fac
        b = a.copy()
        kw = dict(dt=2.0**e2)
        if not endp or rng.random() < .5: kw['endpoints'] = endp
        x, r = call(crys.velocity_traj, a, **kw)
        evs.append(dict(op='vtraj', c=L, endp=endp, exc=x, o=snap(r, 2 * 2.0**e2 / fac) if not x else [], kept=bool(np.array_equal(a, b))))
    if n >= 3:
        e2 = rng.choice([0, 1, -1, 2])
        x, r = call(lambda: crys.Trajectory(coords=lay(rng, vel.astype(float)), symbols=['H'] * na, cell=np.eye(3)[None, ...].repeat(n, 0), timestep=2.0**e2).velocity)
        evs.append(dict(op='vtraj', c=L, endp=True, exc=x, o=snap(r, 2 * 2.0**e2) if not x else [], kept=True))
    # ---- density of states
    if n >= 4:
        for method, mirr in (('direct', False), ('vacf', True), ('vacf', False)):
            win = o['window']
            N = n + (n - 1) * o['npad']
            if method == 'direct' and N < 4: continue
            w = np.array([1 - ((t - .5 * (n - 1)) / (.5 * (n - 1)))**2 if win else 1 for t in range(n)])
            W0 = (((vel * w[:, None, None])**2) * np.array(use)[None, :, None]).sum()     # zero lag
            sc4 = (n - 1)**4 if win else 1
            if W0 == 0: continue
            a, ma, fac = lay(rng, vel.astype(float)), mm(), 1.
            mu = 1 if ma is None else ma[0] / m[0]
            if a.dtype.kind == 'f': fac = rng.choice(FAC); a *= fac
            b, mb = a.copy(), None if ma is None else ma.copy()
            dt = rng.choice([1, .7, 1 / 3]) * 2.0**rng.choice([0, -1, 3])
            area = rng.choice([1.0, 1.0, 12.0])
            kw = dict(dt=dt, m=ma, window=win, area=area)
            if method == 'direct': fn = pydos.direct_pdos; kw.update(npad=o['npad'] if o['npad'] or rng.random() < .5 else None, tonext=o['tonext'])
            else: fn = pydos.vacf_pdos; kw.update(mirr=mirr)
            if method == 'direct' and o['npad'] == 1 and rng.random() < .5: kw.pop('npad')
            if method == 'vacf' and mirr and rng.random() < .5: kw.pop('mirr')
            if method == 'direct' and kw.get('npad', 1) is None: kw['tonext'] = False
            if rng.random() < .4:
                fn = pydos.pdos
                kw['method'] = method
                if method == 'direct': kw.setdefault('npad', 1)
                else: kw['mirr'] = mirr; kw['npad'] = rng.choice([0, None])
            elif method == 'direct' and rng.random() < .2: kw['pad_tonext'] = kw.pop('tonext')        # old name
            x, r = call(lambda: fn(a, full_out=True, **kw))
            ev = dict(op='pdos', method=method, mirr=mirr, vel=L, m=use, npad=o['npad'], tonext=bool(o['tonext'] and kw.get('tonext', kw.get('pad_tonext'))), window=win, exc=x)
            if not x:
                x, r2 = call(lambda: fn(a, **kw))
                ev['exc'] = x
            if not x:
                f, p = r[:2]
                ff, pp, si = r[2][:3] if len(r) == 3 and isinstance(r[2], tuple) else r[2:5]
                rest = list(r[2][3:]) if len(r) == 3 and isinstance(r[2], tuple) else list(r[5:])
                NN = len(ff)
                ev.update(full_faxis=snap(ff, NN * dt), faxis=snap(f, NN * dt), split=int(si),
                          lags=snap(np.fft.ifft(pp).real, (fac**-2 / mu if method == 'direct' else W0) * sc4, 1e-6) if method == 'direct' or mirr else [],
                          vacf=snap(rest[0], W0 * sc4, 1e-6) if method == 'vacf' else [], absok=bool(method != 'vacf' or np.allclose(np.abs(rest[1]), pp)),
                          rel=snapr(p / p.max(), 10**6), relfull=snapr(pp[:si] / pp[:si].max(), 10**6),
                          area=int(round(num.simps(p, x=f) / area * 1e6)), short=snapr(r2[1] / p.max(), 10**6), shortf=snap(r2[0], NN * dt),
                          kept=bool(np.array_equal(a, b) and (ma is None or np.array_equal(ma, mb))))
            evs.append(ev)
    # ---- Fourier helpers
    fa = rng.choice(FAC)
    a = np.array(v, float) * fa
    for what in ('loop', 'matmul'):
        x, r = call(lambda: psig.dft(a, method=what) if what != 'loop' or rng.random() < .5 else psig.dft(a))
        evs.append(dict(op='fft', what='dft_' + what, a=v, exc=x, o=snap(np.fft.ifft(r).real / fa) if not x else []))
    dt = 2.0**rng.choice([0, -1, 3])
    x, r = call(psig.ezfft, a, dt)
    evs.append(dict(op='freq', n=n, exc=x, o=snap(r[0], n * dt) if not x else []))
    if not x:
        z = np.fft.fft(a)
        z[:n // 2] = r[1]
        evs.append(dict(op='fft', what='ezfft', a=v, exc='', o=snap(np.fft.ifft(z).real / fa) if len(r[1]) == n // 2 else []))
    A = np.array([[[rng.randint(-9, 9) for k in range(rng.choice([1, 3]))]] * 2 for j in range(1)])
    A = np.array([rng.randint(-9, 9) for k in range(24)]).reshape(rng.choice([(24,), (4, 6), (2, 3, 4), (4, 1, 6), (3, 2, 2, 2)]))
    ax = rng.randrange(-A.ndim, A.ndim)
    x, r = call(lambda: psig.fft_1d_loop(A if fa == 1 else A * fa, axis=ax) if ax != -1 or rng.random() < .5 else psig.fft_1d_loop(A if fa == 1 else A * fa))
    evs.append(dict(op='fft', what='fft_1d_loop', a=A.tolist(), exc=x, o=snap(np.fft.ifft(r, axis=ax).real / fa) if not x else []))
    for q in range(2):
        e1, e2, mi = rng.randint(-6, 6), rng.randint(0, 8), rng.random() < .5
        if q == 0:
            x, r = call(psig.fftsample, 2.0**e1, 2.0**e2, mode='t', mirr=mi)
            g = (r[0], r[1], 2.0**e1, 2.0**e2) if not x else None
        else:
            x, r = call(lambda: psig.fftsample(2.0**e1, 2.0**(e1 - e2), mode='f', mirr=mi))
            g = (2.0**e1, 2.0**(e1 - e2), r[0], r[1]) if not x else None
        lg = lambda t: int(np.log2(t)) if t > 0 and np.log2(t) == int(np.log2(t)) else 999
        evs.append(dict(op='sample', mirr=mi, exc=x, **(dict(zip(('fmax', 'df', 'dt', 'n'), map(lg, g))) if g else {})))
    # the integral of a curve, also one on negative values, in any direction
    n = rng.choice([3, 5, 7, 11])
    y = [rng.randint(*rng.choice([(-9, 9), (0, 9), (-9, 0)])) for i in range(n)]
    h, x0, ar, rule = rng.choice([1, .5, 1000., -1, .7, 13.01]), rng.choice([0, -3, -50, 2]), rng.choice([1, 3, 7]), rng.choice(['simps', 'trapz'])
    w = [1] + [2 if rule == 'trapz' else 4 if i % 2 else 2 for i in range(1, n - 1)] + [1]
    S = sum(a * b for a, b in zip(w, y))
    fy = rng.choice(FAC)
    ya, xa = np.array(y, float) * fy, (x0 + np.arange(n)) * h
    kw = {} if ar == 1 and rng.random() < .7 else dict(area=ar)
    if rng.random() < .4: kw['scale'] = rng.random() < .5
    if rule == 'trapz': kw['func'] = np.trapz
    if S:
        x, r = call(num.norm_int, ya, xa, **kw)
        evs.append(dict(op='normint', y=y, s=S, area=ar, rule=rule, exc=x, o=snap(r * S * h) if not x else [], kept=bool(np.array_equal(ya, np.array(y, float) * fy) and np.array_equal(xa, (x0 + np.arange(n)) * h)), opts=str([h, x0, list(kw)])))
    M = rng.choice([1, 2, 3, 4, 7, 10])
    x, r = call(psig.welch, M)
    evs.append(dict(op='welch', n=M, o=snap(r, max(M - 1, 1)**2) if not x else []))
    return {}, evs


if __name__ == '__main__':
    main(globals())
