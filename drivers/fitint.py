"""C39: fits, interpolators, RBF networks.  Data are integer polynomials or arbitrary integers at integer points."""
import numpy as np, warnings, itertools
from _base import *
from pwtools import num, mpl, rbf
from pwtools.rbf import hyperopt

WORKERS = 8


def ev(op, how, exc='', **k):
    return dict(op=op, how=how, exc=exc, **k)


# ------------------------------------------------------------------ scenarios
def from_mc(x):
    out = [dict(kind='poly', c=x['c'], d=x['d'], nd=x['nd'], seed=x['v'])]
    return out


def gen(rng, tier):
    n = 1 if tier == 'quick' else 12
    out = []
    for i in range(50 * n):
        nd = rng.choice([1, 1, 2, 2, 3])
        d = rng.randint(1, {1: 4, 2: 3, 3: 2}[nd])
        c = [rng.choice([-3, -2, -1, 0, 0, 1, 2]) if nd == 1 or sum(p) <= 3 else 0 for p in itertools.product(range(d + 1), repeat=nd)]
        out.append(dict(kind='poly', c=c, d=d, nd=nd, seed=rng.randrange(10**6)))
    # constants: nothing to scale by
    for i in range(8):
        nd = rng.choice([1, 1, 2])
        out.append(dict(kind='poly', c=[[3, -2, 0, 1][i % 4]] + [0] * (2**nd - 1), d=1, nd=nd, seed=rng.randrange(10**6)))
    for i in range(60 * n): out.append(dict(kind='extr', seed=rng.randrange(10**6)))
    for i in range(40 * n): out.append(dict(kind='ext2', seed=rng.randrange(10**6)))
    for i in range(120 * n): out.append(dict(kind='data', seed=rng.randrange(10**6)))
    for i in range(80 * n): out.append(dict(kind='rbf', seed=rng.randrange(10**6)))
    for i in range(40 * n): out.append(dict(kind='hyper', seed=rng.randrange(10**6)))
    return out


def run(sc, work):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return globals()['run_' + sc['kind']](sc, random.Random(sc['seed']))


def polyval(c, d, nd, u):
    u = np.asarray(u)
    return sum(ck * np.prod([u[:, j]**p[j] for j in range(nd)], axis=0) for ck, p in zip(c, itertools.product(range(d + 1), repeat=nd)) if ck) + np.zeros(len(u), dtype=int)


def frame(rng, nd):
    """coordinate and value scales"""
    if rng.random() < .4: return np.zeros(nd), np.ones(nd), 1.0
    return (np.array([rng.choice([0, 0, 5.5, -20]) for _ in range(nd)]), np.array([rng.choice([1, .25, 8, .7, 1 / 3]) for _ in range(nd)]), rng.choice([1, .5, 64., 1 / 1024, .7, 1 / 3, 13.01]))


# ------------------------------------------------------------------ polynomials
def run_poly(sc, rng):
    c, d, nd = sc['c'], sc['d'], sc['nd']
    hdr = dict(c=c, d=d, nd=nd, z=[], pts=[])
    off, scl, ys = frame(rng, nd)
    evs = []
    deg = d + rng.choice([0, 0, 1]) if nd < 3 else d
    per = deg + 1 + rng.randint(0, 2 if nd < 3 else 0)
    lo = rng.choice([-2, 0, -4 + per])
    U = np.array(list(itertools.product(range(lo, lo + per), repeat=nd)))
    U = U[rng.sample(range(len(U)), len(U))]
    z = polyval(c, d, nd, U)
    X = off + U * scl
    Y = z * ys
    if (X == X.round()).all() and rng.random() < .5: X = X.astype(int)
    if (Y == Y.round()).all() and rng.random() < .5: Y = Y.astype(int)
    kw = rng.choice([{}, {}, dict(scale=False), dict(scale_vand=True), dict(scale=False, scale_vand=True)])
    if not (off == 0).all() and 'scale' in kw: kw = {}
    hi = lo + per - 1

    def at(n): return [[rng.randint(lo - 1, hi + 1) for _ in range(nd)] for _ in range(n)]

    def x_of(a): return off + np.array(a) * scl

    def rec(how, f, a, m=0, single=False, dim=1, xx=None, **k):
        xx = x_of(a) if xx is None else xx
        if single: xx = xx[0]
        e, r = call(f, xx, **k)
        if not e: r = np.asarray(r, dtype=float) / ys * scl[dim - 1]**m
        evs.append(ev('eval', how, e, at=a, der=m, dim=dim, single=single, out=nd_(r, 1e-7 if m else 1e-6 if 'poly' in how else 1e-8)))

    e, f = call(num.PolyFit, X, Y, deg, **kw)
    if e: evs.append(ev('eval', 'polyfit', e))
    else:
        rec('polyfit', f, at(4))
        rec('polyfit', f, at(1))
        rec('polyfit', f, at(1), single=True)
        e, g = call(num.polyfit, X, Y, deg, **kw)
        if e: evs.append(ev('eval', 'polyval', e))
        else: rec('polyval', lambda p, **k: num.polyval(g, p, **k), at(5))
    if nd == 1:
        # the same data along a line in the plane
        w = rng.choice([0, 2, -3])
        P2 = np.column_stack([X[:, 0], np.full(len(X), w)]); p = at(3)
        e, f = call(num.PolyFit, P2, Y, deg, **kw)
        if e: evs.append(ev('eval', 'polyfit_line', e))
        else: rec('polyfit_line', f, p, xx=np.column_stack([x_of(p)[:, 0], np.full(3, w)]))
        o = np.argsort(U[:, 0])
        a, b = (X[:, 0], Y) if rng.random() < .5 else (X, Y)
        e, f = call(num.PolyFit1D, a, b, deg, **kw)
        if e: evs.append(ev('eval', 'polyfit1d', e))
        else:
            for der in range(0, min(d, 3) + 1):
                k = dict(der=der) if der or rng.random() < .5 else {}
                p = at(3)
                rec('polyfit1d', f, p, m=der, xx=x_of(p)[:, 0], **k)
                p = at(3)
                rec('polyfit1d', f, p, m=der, **k)
                p = at(1)
                rec('polyfit1d', f, p, m=der, single=True, xx=[float(x_of(p)[0, 0])], **k)
        if d <= 3 and len(U) >= 5:
            xs, zs = X[o, 0], Y[o]
            k = {} if rng.random() < .7 else dict(k=max(3, d))
            e, f = call(num.Spline, xs, zs, **k)
            if e: evs.append(ev('eval', 'spline', e))
            else:
                for der in range(0, 3):
                    kk = dict(der=der) if der or rng.random() < .5 else {}
                    p = [[rng.randint(lo, hi)] for _ in range(4)]
                    rec('spline', f, p, m=der, xx=x_of(p)[:, 0], **kk)
                    p = [[rng.randint(lo, hi)]]
                    rec('spline', f, p, m=der, xx=[float(x_of(p)[0, 0])], single=True, **kk)
            for der in (1, 2):
                p = [[rng.randint(lo, hi)] for _ in range(4)]
                rec('deriv_spl', lambda x, **k: num.deriv_spl(zs, x=xs, xnew=x, **k), p, m=der, xx=x_of(p)[:, 0], **({} if der == 1 else dict(n=der)))
                p = [[int(u)] for u in U[o, 0]]
                rec('deriv_spl', lambda x, **k: num.deriv_spl(zs, xs, **k), p, m=der, xx=0, n=der)
                e, r = call(num.deriv_spl, zs, xs, n=der, fullout=True)
                rec('deriv_spl', lambda x, **k: r[1], [[int(v)] for v in np.rint((r[0] - off[0]) / scl[0])], m=der)
    if nd == 2:
        forms = [dict(points=X, values=Y), dict(xx=X[:, 0], yy=X[:, 1], values=Y), dict(dd=mpl.Data2D(XY=X, zz=Y))]
        meth = [('poly', dict(deg=deg))]
        total = [sum(p) for p, ck in zip(itertools.product(range(d + 1), repeat=2), c) if ck] + [0]
        if max(total) <= 1:
            meth += [('linear', {}), ('ct', {})]
            for k in ('linear', 'ct'): pass
        if d <= 3 and len(U) >= 16:
            meth.append(('bispl', {}))
        for what, k in meth:
            e, f = call(num.Interpol2D, what=what, **rng.choice(forms), **k)
            if e: evs.append(ev('eval', 'interpol2d_' + what, e)); continue
            p = [[rng.randint(lo, hi) for _ in range(2)] for _ in range(4)]
            rec('interpol2d_' + what, f, p)
            # one point alone: still an array of length one
            p = p[:1]
            rec('interpol2d_' + what, f, p, xx=x_of(p)[0])
            if what == 'bispl':
                p = [[rng.randint(lo, hi) for _ in range(2)] for _ in range(3)]
                rec('interpol2d_bispl', f, p, m=1, dim=1, dx=1)
                rec('interpol2d_bispl', f, p, m=1, dim=2, dy=1)
    return hdr, evs


def nd_(r, tol):
    return nd(r, 1, tol)


# ------------------------------------------------------------------ extrema, roots
def poly1(roots, a, const=0):
    p = np.poly1d([a])
    for r in roots: p = p * np.poly1d([1, -r])
    return p + const


def run_extr(sc, rng):
    shape = rng.choice(['quad', 'cubic', 'lin'])
    b = rng.randint(-3, 3)
    s = rng.choice([1, -1])
    if shape == 'quad':
        h = rng.randint(1, 3); k0 = rng.choice([0, -s * h * h, 5, -s * 2])
        p = poly1([b, b], s) + k0 * 1.0
        stat = [b]
        roots = [b - h, b + h] if k0 == -s * h * h else []
    elif shape == 'cubic':
        h = 2 if rng.random() < .5 else 1
        p = s * (np.poly1d([1, -b])**3 - 3 * h * h * np.poly1d([1, -b]))
        stat = [b - h, b + h]
        roots = [b]
    else:
        p = s * rng.randint(1, 3) * np.poly1d([1, -b])
        stat, roots = [], [b]
    cf = [int(round(v)) for v in p.coeffs[::-1]]
    d = max(1, len(cf) - 1)
    hdr = dict(c=cf, d=d, nd=1, z=[], pts=[])
    lo, hi = b - 4 - rng.randint(0, 2), b + 4 + rng.randint(0, 2)
    off, scl, ys = frame(rng, 1)
    off, scl = off[0], scl[0]
    tiny = rng.random() < .15         # x in a unit which makes all of them small
    if tiny: off, scl = 0, rng.choice([1e-9, 1e-6 / 7])
    X, Y = off + np.arange(lo, hi + 1) * scl, p(np.arange(lo, hi + 1)) * ys
    fits = []
    e, f = call(num.Spline, X, Y)
    fits.append(('spline', e, f))
    e, f = call(num.PolyFit1D, X, Y, max(d, rng.randint(d, 4)))
    fits.append(('polyfit1d', e, f))
    evs = []

    def back(x): return [snap((float(x) - off) / scl, 1, 1e-6)]

    for name, e, f in fits:
        if e: evs.append(ev('extr', name, e)); continue
        X_ = lambda u: off + u * scl
        for i, t in enumerate(stat):
            for w in ('get_min', 'get_max'):
                g = getattr(f, w)
                a1 = t - (2 if len(stat) == 1 else 1) * 1.0 + rng.choice([0, .5]); b1 = t + rng.choice([.5, 1])
                if len(stat) == 1 and rng.random() < .5:
                    e, r = call(g); l, u = lo, hi
                else:
                    e, r = call(g, xab=[X_(a1), X_(b1)]); l, u = int(np.floor(a1)), int(np.ceil(b1))
                evs.append(ev('extr', name + '_' + w, e, out=back(r) if not e else [], lo=l, hi=u))
                if tiny: continue
                x0 = t + rng.choice([-.25, .25])
                e, r = call(g, x0=X_(x0))
                evs.append(ev('extr', name + '_' + w + '_newton', e, out=back(r) if not e else [], lo=t, hi=t))
        for t in roots:
            if len(roots) == 1 and shape == 'lin' and rng.random() < .5:
                e, r = call(f.get_root); l, u = lo, hi
            else:
                e, r = call(f.get_root, xab=[X_(t - .5), X_(t + .5)]); l, u = t, t
            evs.append(ev('root', name + '_get_root', e, out=back(r) if not e else [], lo=l, hi=u, y0=0))
            if tiny: continue
            e, r = call(f.get_root, x0=X_(t + .25))
            evs.append(ev('root', name + '_get_root_newton', e, out=back(r) if not e else [], lo=t, hi=t, y0=0))
        if name == 'spline':
            for _ in range(2):
                t = rng.randint(lo, hi)
                if t in stat: continue
                if t in (lo, hi) and not (scl in (1, .25, 8) and ys in (1, .5, 64., 1 / 1024)): continue        # (rounding: on the curve or just off its end)
                y0 = int(round(p(t)))
                l, u = (max(t - .5, lo), min(t + .5, hi))
                if shape == 'lin' and rng.random() < .5: e, r = call(f.invsplev, y0 * ys)
                elif any(l < q < u for q in stat): continue
                else: e, r = call(f.invsplev, y0 * ys, xab=[X_(l), X_(u)])
                evs.append(ev('root', 'invsplev', e, out=back(r) if not e else [], lo=t, hi=t, y0=y0))
            # a value the data don't reach
            e, r = call(f.invsplev, (int(round(max(p(np.arange(lo, hi + 1))))) + 7) * ys)
            evs.append(ev('reject', 'invsplev_outside', '', got=e))
    # old functions
    if stat and len(stat) == 1:
        e, r = call(num.findmin, X, Y)
        evs.append(ev('extr', 'findmin', e, out=back(r[0]) if not e else [], lo=lo, hi=hi))
        if not e: evs.append(ev('eval', 'findmin', at=[[stat[0]]], der=0, dim=1, single=True, out=nd(r[1] / ys, 1, 1e-6)))
    if shape == 'lin':
        e, r = call(num.findroot, X, Y)
        evs.append(ev('root', 'findroot', e, out=back(r[0]) if not e else [], lo=lo, hi=hi, y0=0))
    return hdr, evs


def run_ext2(sc, rng):
    """paraboloids in two dimensions"""
    a, b = rng.randint(-2, 2), rng.randint(-2, 2)
    p, q, x, r = rng.randint(1, 3), rng.randint(1, 3), rng.choice([0, 1, -1]), rng.randint(-4, 4)
    # p (u-a)^2 + q (v-b)^2 + x (u-a)(v-b) + r
    c = np.zeros((3, 3), dtype=int)
    c[0, 0] = p * a * a + q * b * b + x * a * b + r
    c[1, 0] = -2 * p * a - x * b; c[0, 1] = -2 * q * b - x * a
    c[2, 0] = p; c[0, 2] = q; c[1, 1] = x
    c = [int(v) for v in c.ravel()]
    hdr = dict(c=c, d=2, nd=2, z=[], pts=[])
    # (the simplex method itself is no good at directions of very different scale)
    off, scl, ys = rng.choice([0, 5.5]) * np.ones(2), rng.choice([1, 1, .25, 4, .7]) * np.ones(2), rng.choice([1, .5, 64., 1 / 1024, .7, 13.01])
    lo, hi = -3, 3
    U = np.array(list(itertools.product(range(lo, hi + 1), repeat=2)))
    U = U[rng.sample(range(len(U)), len(U))]
    X, Y = off + U * scl, polyval(c, 2, 2, U) * ys
    evs = []
    kw = rng.choice([{}, dict(x0=off + np.array([a + .5, b - .75]) * scl)])
    if ys < .1: kw['ftol'] = 1e-12
    for name, mk in [('polyfit', lambda: num.PolyFit(X, Y, 2)),
                     ('interpol2d_poly', lambda: num.Interpol2D(points=X, values=Y, what='poly', deg=2)),
                     ('interpol2d_bispl', lambda: num.Interpol2D(dd=mpl.Data2D(XY=X, zz=Y), what='bispl', s=0.001 * ys**2))]:
        e, f = call(mk)
        if e: evs.append(ev('extr', name, e)); continue
        e, r = call(f.get_min, **kw)
        if name == 'interpol2d_bispl': tol = .1
        else: tol = .02
        evs.append(ev('extr', name + '_get_min', e, lo=lo, hi=hi, out=[snap(v, 1, tol) for v in (np.asarray(r) - off) / scl] if not e else []))
    return hdr, evs


# ------------------------------------------------------------------ interpolation of arbitrary data
def distinct(rng, n, nd, w):
    allp = list(itertools.product(range(w), repeat=nd))
    return [list(p) for p in rng.sample(allp, min(n, len(allp)))]


def run_data(sc, rng):
    nd_ = rng.choice([1, 1, 2, 2, 3])
    flat = rng.random() < .1
    n = rng.randint(4, 8)
    pts = distinct(rng, n, nd_, {1: 12, 2: 5, 3: 4}[nd_])
    if nd_ == 1: pts.sort()
    n = len(pts)
    if nd_ == 2 and np.linalg.matrix_rank(np.array(pts)[1:] - pts[0]) < 2: pts = [[0, 0], [3, 0], [0, 3], [3, 4], [2, 2]]; n = 5
    z = [0] * n if flat else [rng.randint(-5, 5) for _ in range(n)]
    if rng.random() < .2: z = sorted(z, reverse=rng.random() < .5)
    hdr = dict(c=[0, 0], d=1, nd=1, z=z, pts=pts)
    off, scl, ys = frame(rng, nd_)
    scl = np.array([scl[0]] * nd_)
    P, Z = off + np.array(pts) * scl, np.array(z) * ys
    if (P == P.round()).all() and rng.random() < .4: P = P.astype(int)
    if (Z == Z.round()).all() and rng.random() < .4: Z = Z.astype(int)
    evs = []

    def sup(how, f, always_array=False):
        idx = [rng.randrange(n) for _ in range(4)]
        x = (lambda i: P[i, 0]) if how.startswith('spline') else (lambda i: P[i])
        e, r = call(lambda: np.asarray(f(x(idx)), dtype=float) / ys)
        evs.append(ev('support', how, e, idx=[i + 1 for i in idx], single=False, out=nd(r, 1, 1e-7)))
        i = rng.randrange(n)
        e, r = call(lambda: np.asarray(f(x(i)), dtype=float) / ys)
        evs.append(ev('support', how, e, idx=[i + 1], single=not always_array, out=nd(r, 1, 1e-7)))

    if nd_ == 1:
        for k in rng.sample([1, 2, 3], 2):
            if n <= k: continue
            kw = {} if k == 3 and rng.random() < .5 else dict(k=k)
            e, f = call(num.Spline, P[:, 0], Z, **kw)
            if e: evs.append(ev('support', 'spline', e)); continue
            sup('spline', f)
            e, r = call(f.is_mono)
            evs.append(ev('mono', 'spline', e, out=bool(r)))
            e, r = call(f.splev, P[:, 0])
            evs.append(ev('support', 'spline_splev', e, idx=list(range(1, n + 1)), single=False, out=nd(None if e else np.asarray(r) / ys)))
            # unordered x
            e, r = call(num.Spline, P[::-1, 0], Z, **kw)
            evs.append(ev('reject', 'spline_unordered', got=e))
        # a smoothing spline must say so
        if n > 5 and len({b - a for a, b in zip(z, z[1:])}) > 2:
            e, r = call(num.Spline, P[:, 0], Z, s=1e6 * ys**2)
            evs.append(ev('smooth', 'spline', '', got=e, straight=False))
    for name in rng.sample(['gauss', 'multi', 'inv_multi'], 2):
        r_ = rng.choice([0, 0, None])
        p_ = rng.choice(['mean', 'scipy', float(scl[0]) * rng.choice([.5, 1.])])
        if r_ == 0 and name == 'gauss' and nd_ == 1: p_ = float(scl[0])
        if r_ is None: p_ = float(scl[0])
        kw = dict(rbf=name, p=p_)
        if r_ is None or rng.random() < .5: kw['r'] = r_
        if kw['rbf'] == 'gauss' and rng.random() < .5: kw.pop('rbf')
        if kw.get('p') == 'mean' and rng.random() < .5: kw.pop('p')
        e, f = call(rbf.Rbf, P, Z, **kw)
        if e: evs.append(ev('support', 'rbf', e)); continue
        sup('rbf', f)
    if nd_ == 2:
        forms = [dict(points=P, values=Z), dict(xx=P[:, 0], yy=P[:, 1], values=Z)]
        for what in rng.sample(['nearest', 'linear', 'ct', 'rbf_multi', 'rbf_inv_multi', 'rbf_gauss'], 3):
            kw = dict(what=what)
            if what == 'rbf_inv_multi' and rng.random() < .4: kw.pop('what')
            if what.startswith('rbf'): kw['p'] = float(scl[0])
            e, f = call(num.Interpol2D, **rng.choice(forms), **kw)
            if e: evs.append(ev('support', 'interpol2d_' + what, e)); continue
            sup('interpol2d_' + what, f, True)
    return hdr, evs


# ------------------------------------------------------------------ networks
def micro(a): return [snapr(v, 10**6) for v in np.asarray(a, dtype=float).ravel()]


def small(*a): return all(np.all(np.abs(np.asarray(x, dtype=float)) < 500) for x in a)


def run_rbf(sc, rng):
    nd_ = rng.choice([1, 2, 2, 3])
    n = rng.randint(4, 9)
    pts = distinct(rng, n, nd_, {1: 12, 2: 5, 3: 4}[nd_]); n = len(pts)
    z = [rng.randint(-5, 5) for _ in range(n)] if rng.random() < .93 else [0] * n
    hdr = dict(c=[0, 0], d=1, nd=1, z=z, pts=pts)
    P, Z = np.array(pts, dtype=float), np.array(z, dtype=float)
    if rng.random() < .3: P = P.astype(int)
    evs = []
    name = rng.choice(['gauss', 'multi', 'inv_multi'])
    r_ = rng.choice([1e-3, .01, .1, .5, 2.]) if name != 'multi' else rng.choice([1e-3, .01])
    p_ = rng.choice(['mean', 'scipy', 1.0, .5, 2.0, 1])
    e, f = call(rbf.Rbf, P, Z, rbf=name, r=r_, p=p_)
    if e: return hdr, [ev('resid', 'rbf', e)]
    v = np.asarray(f(P))
    if small(v, r_ * f.w):
        evs.append(ev('resid', name, '', f=micro(v), rw=micro(r_ * f.w), tol=20))
    # fit later, by hand
    e, g = call(rbf.Rbf, P, Z, rbf=name, r=r_, p=p_, fit=False)
    if not e: e, _ = call(g.fit)
    evs.append(ev('same', 'fit', e, a=micro(v), b=micro(g(P)) if not e else []))
    evs.append(ev('same', 'get_params', '', a=micro([f.p, f.r]), b=micro(f.get_params())))
    if p_ in ('mean', 'scipy') and (p_ == 'scipy' or nd_ == 1):
        m = sum(len(set(q)) > 1 for q in zip(*pts))
        for how, pv in ((p_, f.p), (p_, rbf.estimate_p(P, p_))):
            evs.append(ev('p', how, pn=snapr(float(pv)**m * n if p_ == 'scipy' else float(pv) * n * n, 1000)))
        if p_ == 'mean': evs.append(ev('p', 'mean', pn=snapr(float(rbf.estimate_p(P)) * n * n, 1000)))
    # gradients at several points, also on the centers
    h = .02
    for k in range(3):
        one = rng.random() < .4
        m = 1 if one else rng.randint(1, 3)
        x = np.array([[rng.randint(0, 8) / 2 for _ in range(nd_)] for _ in range(m)])
        x = x + rng.choice([0, .125])
        e, D = call(f, x[0] if one else x, der=1)
        if not e and rng.random() < .3: e, D = call(f.deriv, x[0] if one else x)
        sh = [nd_] if one else [m, nd_]
        if e: evs.append(ev('grad', name, e)); continue
        D = np.asarray(D)
        steps = h * np.eye(nd_)
        fp = np.array([[float(f(x[i] + steps[j])) for j in range(nd_)] for i in range(m)])
        fm = np.array([f(x - steps[j]) for j in range(nd_)]).T
        if not small(fp, fm, 2 * h * D) and not (np.isnan(D).any() and small(fp, fm)): continue
        evs.append(ev('grad', name, '', shape=list(D.shape), want=sh, fp=micro(fp), fm=micro(fm), dd=micro(2 * h * D), tol=400 + int(1000 * np.abs(fp).max())))
    # errors
    k = rng.randint(1, 4)
    q = np.array([[rng.randint(0, 8) / 2 for _ in range(nd_)] for _ in range(k)])
    w = np.array([rng.randint(-5, 5) for _ in range(k)], dtype=float)
    res = w - f(q)
    e, er = call(f.fit_error, q, w)
    if e: evs.append(ev('err', 'fit_error', e))
    elif np.abs(res).max() < 12: evs.append(ev('err', 'fit_error', res=[snapr(t, 1000) for t in res], merr=snapr(er * k, 10**6)))
    if e == '' and np.abs(res).max() < 2:
        old = f.p; f.p = -old
        e, en = call(f.fit_error, q, w)
        f.p = old
        evs.append(ev('penalty', 'fit_error', e, pos=snapr(er, 10**6), neg=snapr(en or 0, 10**6)))
    # wrong shapes must not pass
    for how, a in (('points_1d', (P[:, 0], Z)), ('values_2d', (P, Z[:, None])), ('length', (P, Z[:-1]))):
        e, _ = call(rbf.Rbf, *a)
        evs.append(ev('reject', 'rbf_' + how, got=e))
    for how, fn in (('ndim', lambda: f(np.zeros((2, nd_ + 1)))), ('der_2', lambda: f(P, der=2)), ('ndim_der', lambda: f(np.zeros(nd_ + 1), der=1))):
        e, _ = call(fn)
        evs.append(ev('reject', 'rbf_' + how, got=e))
    return hdr, evs


class Split:
    def __init__(self, folds): self.folds = folds
    def get_n_splits(self, X=None): return len(self.folds)
    def split(self, X):
        for t in self.folds: yield np.array([i for i in range(len(X)) if i not in t]), np.array(t)


def run_hyper(sc, rng):
    nd_ = rng.choice([1, 2])
    n = rng.randint(6, 9)
    pts = distinct(rng, n, nd_, {1: 12, 2: 5}[nd_]); n = len(pts)
    z = [rng.randint(-3, 3) for _ in range(n)]
    hdr = dict(c=[0, 0], d=1, nd=1, z=z, pts=pts)
    P, Z = np.array(pts, dtype=float), np.array(z, dtype=float)
    evs = []
    perm = rng.sample(range(n), n); nf = rng.randint(2, 3)
    folds = [sorted(perm[i::nf]) for i in range(nf)]
    name = rng.choice(['gauss', 'inv_multi'])
    p, r = rng.choice([.5, 1., 2.]), rng.choice([.01, .1, 1.])
    two = rng.random() < .5
    rk = dict(rbf=name) if two else dict(rbf=name, r=r)
    prm = [p, r] if two else [p]
    usecv = rng.random() < .6
    e, fe = call(hyperopt.FitError, P, Z, rbf_kwds=rk, cv=Split(folds) if usecv else None)
    if e: return hdr, [ev('err', 'FitError', e)]

    def add(how, e, mods, err):
        """residuals of the models: mods = [(train, test)]"""
        if e: evs.append(ev('err', how, e)); return
        for (tr, te), er in zip(mods, err):
            m = rbf.Rbf(P[tr], Z[tr], rbf=name, r=r, p=p)
            res = Z[te] - m(P[te])
            if np.abs(res).max() < 10: evs.append(ev('err', how, '', res=[snapr(t, 1000) for t in res], merr=snapr(er * len(te), 10**6)))
        evs.append(ev('count', how, '', got=len(err), want=len(mods)))

    allp = [(list(range(n)), list(range(n)))]
    e, er = call(fe.err_direct, prm); add('err_direct', e, allp, [er])
    ff = [([i for i in range(n) if i not in t], t) for t in folds]
    if usecv:
        e, er = call(fe.cv, prm); add('cv', e, ff, er)
        e2, em = call(fe.err_cv, prm)
        if not (e or e2): evs.append(ev('mean', 'err_cv', '', parts=micro(er), got=snapr(em, 10**6)))
    e, ec = call(fe, prm)
    e2, ed = call(fe.err_cv if usecv else fe.err_direct, prm)
    evs.append(ev('same', 'call', e or e2, a=micro([ec or 0]), b=micro([ed or 0])))
    # search on a grid: the best point of the grid
    what = 'pr' if rng.random() < .6 else 'p'
    ps = [.5 * (k + 1) for k in range(rng.randint(2, 4))]
    rs = [.01 + .25 * k for k in range(rng.randint(2, 3))]
    rg = (slice(ps[0], ps[-1] + .1, .5),) + ((slice(rs[0], rs[-1] + .01, .25),) if what == 'pr' else ())
    rk2 = dict(rbf=name) if what == 'pr' else dict(rbf=name, r=r)
    ok = dict(ranges=rg, finish=None)
    before = sorted(ok)
    cv = Split(folds) if usecv else None
    e, f = call(hyperopt.fit_opt, P, Z, method='brute', what=what, cv=cv, opt_kwds=ok, rbf_kwds=rk2)
    if e: evs.append(ev('opt', 'brute_' + what, e))
    else:
        fe2 = hyperopt.FitError(P, Z, rbf_kwds=rk2, cv=cv)
        grid = [(a, b) for a in ps for b in (rs if what == 'pr' else [r])]
        errs = [float(fe2(g if what == 'pr' else g[:1])) for g in grid]
        pick = [i + 1 for i, g in enumerate(grid) if abs(g[0] - f.p) < 1e-9 and abs(g[1] - f.r) < 1e-9]
        if max(errs) < 500: evs.append(ev('opt', 'brute_' + what, '', errs=micro(errs), pick=pick))
        m = rbf.Rbf(P, Z, rbf=name, p=float(f.p), r=float(f.r))
        evs.append(ev('same', 'fit_opt_model', '', a=micro(f(P)), b=micro(m(P))))
    evs.append(ev('kept', 'fit_opt_kwds', '', a=before, b=sorted(ok)))
    # local search is not worse than its start
    x0 = [p, r] if what == 'pr' else [p]
    ok = dict(x0=x0, maxiter=12)
    e, f = call(hyperopt.fit_opt, P, Z, method='fmin', what=what, cv=cv, opt_kwds=ok, rbf_kwds=rk2)
    if e: evs.append(ev('opt', 'fmin_' + what, e))
    else:
        fe2 = hyperopt.FitError(P, Z, rbf_kwds=rk2, cv=cv)
        errs = [float(fe2(x0)), float(fe2([f.p, f.r][:len(x0)]))]
        if max(errs) < 500: evs.append(ev('opt', 'fmin_' + what, '', errs=micro(errs), pick=[2]))
    for how, k in (('what', dict(what='x')), ('method', dict(method='nope')), ('twice', dict(what='p', rbf_kwds=dict(p=1.)))):
        e, _ = call(hyperopt.fit_opt, P, Z, **dict(dict(method='fmin', cv=None), **k))
        evs.append(ev('reject', 'fit_opt_' + how, got=e))
    return hdr, evs


if __name__ == '__main__':
    main(globals())
