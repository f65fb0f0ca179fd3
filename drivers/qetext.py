"""C37: Quantum ESPRESSO text blocks, phonon files and k-paths (spec Qe)."""
import os, random
import numpy as np
from _base import *
from pwtools import pwscf, kpath

S6 = 10**6


def from_mc(x):
    return dict(kind=x['kind'], nq=x['nq'], nat=x['nat'], opt=x['opt'], seed=x['nq'] * 1000 + x['nat'] * 100 + x['opt'])


def gen(rng, tier):
    out = []
    n = 150 if tier == 'quick' else 3000
    for i in range(n):
        kind = rng.choice(['modes', 'dyn', 'dynmat', 'freq', 'path', 'text', 'text', 'kp'])
        out.append(dict(kind=kind, nq=rng.choice([1, 1, 2, 3, 5, 11]), nat=rng.choice([1, 2, 3, 4, 7, 12] if kind not in ('modes', 'dyn') else [1, 2, 3, 5]), opt=rng.randrange(12), seed=rng.randrange(2**31)))
    return out


def phfile(rng, nq, nat, step=1, wmax=900 * S6):
    """-> f in units of 1e-6, multiples of step"""
    def v(m):
        r = rng.random()
        return 0 if r < .1 else rng.randrange(-m, m + 1) // step * step
    f = []
    for q in range(nq):
        nm = 3 * nat
        f.append(dict(q=[v(S6) for k in range(3)], w=[v(wmax) for m in range(nm)], re=[[v(S6) for k in range(3 * nat)] for m in range(nm)],
                      im=[[v(S6) for k in range(3 * nat)] for m in range(nm)]))
    return f


def vec_lines(q, m, nat, d):
    L = []
    for a in range(nat):
        c = ['%*.6f' % (d, q[x][m][3 * a + k] / S6) for k in range(3) for x in ('re', 'im')]
        L.append(' (%s%s    %s%s    %s%s   )' % tuple(c) if d == 10 else ' ( %s %s  %s %s  %s %s )' % tuple(c))
    return L


def omega(m, w, style):
    if style == 0: return '     omega(%2i) =%15.6f [THz] =%15.6f [cm-1]' % (m + 1, w / 33.35641e6, w / S6)
    return '    omega(%i) = %.6f [THz] = %.6f [cm-1]' % (m + 1, w / 33.35641e6, w / S6)


STAR = ' ' + '*' * 74


def w_modes(fn, f, nat, opt):
    L = []
    for q in f:
        L += ['     diagonalizing the dynamical matrix ...', '', (' q = %12.6f%12.6f%12.6f' if opt % 2 else ' q =  %.6f  %.6f   %.6f') % tuple(x / S6 for x in q['q']), STAR]
        for m in range(3 * nat):
            L.append(omega(m, q['w'][m], opt % 3))
            L += vec_lines(q, m, nat, 10 if opt % 2 else 11)
        L.append(STAR)
    open(fn, 'w').write('\n'.join(L) + '\n')


def w_dyn(fn, q, nat, opt, rng):
    qs = '     q = ( %13.9f%14.9f%14.9f ) '
    L = ['Dynamical matrix file', '', '  1%5i   4   5.7%s' % (nat, '   0.0' * 5)]
    if opt % 3:
        L += ["           1  'Al  '   24590.76"] + ['%5i%5i    0.1  0.2  0.3' % (a + 1, 1) for a in range(nat)]
        # the star of q, each with its matrix
        for s in range(opt % 3):
            L += ['', '     Dynamical  Matrix in cartesian axes', '', qs % tuple([x / S6 for x in q['q']] if s == 0 else [rng.random() for k in range(3)]), '']
            for a in range(nat):
                for b in range(nat):
                    L += ['%5i%5i' % (a + 1, b + 1)] + ['%12.8f%12.8f  %12.8f%12.8f  %12.8f%12.8f' % tuple(rng.uniform(-1, 1) for k in range(6)) for c in range(3)]
        L += ['', '     Diagonalizing the dynamical matrix']
    L += ['', qs % tuple(x / S6 for x in q['q']), '', STAR]
    for m in range(3 * nat):
        L.append(omega(m, q['w'][m], opt % 2))
        L += vec_lines(q, m, nat, 10 if opt % 2 else 12)
    L.append(STAR)
    open(fn, 'w').write('\n'.join(L) + '\n')


def three(r):
    """qpoints, freqs, vecs -> event fields"""
    try:
        q, w, v = r
        v = np.asarray(v)
        im = nd(v.imag, S6, 1e-3) if np.iscomplexobj(v) else nd(None)
        return dict(q=nd(q, S6, 1e-3), w=nd(w, S6, 1e-3), re=nd(v.real, S6, 1e-3), im=im)
    except Exception:
        return dict(q=nd(None), w=nd(None), re=nd(None), im=nd(None))


def rd(op, fn, *a, **k):
    exc, r = call(fn, *a, **k)
    ev = dict(op=op, exc=exc)
    ev.update(three(r))
    return ev


PY = [(3, 4, 0), (0, 0, 5), (1, 2, 2), (2, 3, 6), (0, -2, 0), (-4, 3, 0), (0, 6, -8), (2, -1, -2), (7, 0, 0), (4, 4, 7), (0, 0, 0), (1, 4, 8), (-6, 2, 3)]
ELS = ['Al', 'N', 'Si', 'C', 'O', 'H', 'Al1', 'Fe2', 'Cl_a']


def parse_rows(txt, num):
    out = []
    for l in txt.split('\n'):
        t = l.split()
        if t: out.append([repr(float(x)) if i in num else x for i, x in enumerate(t)])
    return out


def ints(txt):
    try: return [int(x) for x in txt.split()]
    except Exception: return [-999]


def run(sc, work):
    rng = random.Random(sc['seed'])
    kind, nq, nat, opt = sc['kind'], sc['nq'], sc['nat'], sc['opt']
    hdr = dict(f=[], nat=nat, nb=1, rows=[[1]])
    evs = []
    pj = lambda *p: os.path.join(work, *p)
    if kind == 'modes':
        f = phfile(rng, nq, nat)
        hdr['f'] = f
        w_modes(pj('m.modes'), f, nat, opt)
        evs.append(rd('modes', pwscf.read_matdyn_modes, pj('m.modes'), natoms=nat))
    elif kind == 'dyn':
        f = phfile(rng, nq, nat)
        hdr['f'] = f
        base = ['ph.dyn', 'dyn', 'x.dyn_'][opt % 3]
        for i, q in enumerate(f): w_dyn(pj('%s%i' % (base, i + 1)), q, nat, opt, rng)
        if base == 'ph.dyn' and opt % 2 == 0: evs.append(rd('alldyn', pwscf.read_all_dyn, work, nqpoints=nq, natoms=nat))
        else: evs.append(rd('alldyn', pwscf.read_all_dyn, work, nqpoints=nq, natoms=nat, base=base))
        for i in sorted(rng.sample(range(nq), min(nq, 2))):
            ev = rd('dyn', pwscf.read_dyn, pj('%s%i' % (base, i + 1)), natoms=nat)
            ev['i'] = i + 1
            evs.append(ev)
    elif kind == 'dynmat':
        f = phfile(rng, 1, nat, step=10)
        f[0]['q'] = [0, 0, 0]
        nm = 3 * nat
        w = [rng.choice([0, rng.randrange(-500, 90000)]) for m in range(nm)]
        f[0]['w'] = [x * 10**4 for x in w]
        hdr['f'] = f
        L = ['ANIMSTEPS%4i' % nm, 'CRYSTAL', 'PRIMVEC'] + ['  %13.9f%15.9f%15.9f' % tuple(rng.random() for k in range(3)) for c in range(3)]
        pos = [[rng.uniform(0, 9) for k in range(3)] for a in range(nat)]
        el = [rng.choice(['Al', 'N', 'Si']) for a in range(nat)]
        for m in range(nm):
            L += ['PRIMCOORD%3i' % (m + 1), '%7i%4i' % (nat, 1)]
            L += ['   %-2s%12.5f%10.5f%10.5f' % ((el[a],) + tuple(pos[a])) + ''.join('%10.5f' % (f[0]['re'][m][3 * a + k] / S6) for k in range(3)) for a in range(nat)]
        names = ('dynmat.out', 'dynmat.axsf') if opt % 2 else ('x.out', 'y.axsf')
        open(pj(names[1]), 'w').write('\n'.join(L) + '\n')
        nc = [3, 4, 5, 6][opt % 4]
        rows = [[(m + 1) * 10**4, w[m] * 100, rng.randrange(-1000, 300000)] + [rng.choice([0, rng.randrange(0, 10**6)]) for k in range(3)] for m in range(nm)]
        rows = [r[:nc] for r in rows]
        hdr['rows'] = rows
        L = ['', '     Program DYNMAT v.5.0.2 (svn rev. 9656) starts on 29Oct2013 at 17:49:37', '', '     Reading Dynamical Matrix from file ph.dyn', '     ...Force constants read', '     Polarizability (A^3 units)', '        10.218921    0.000000    0.000000', '',
             '# mode   [cm-1]    [THz]      IR          Raman   depol.fact'[:[30, 38, 53, 70][opt % 4]]]
        for r in rows:
            L.append('%5i%10.2f%10.4f' % (r[0] // 10**4, r[1] / 1e4, r[2] / 1e4) + ''.join('%*.4f' % (d, x / 1e4) for d, x in zip((10, 15, 10), r[3:])))
        L += ['', '     DYNMAT       :     0.00s CPU         0.01s WALL', '', '   This run was terminated on:  17:49:37  29Oct2013', '=' + '-' * 70 + '=', '   JOB DONE.']
        open(pj(names[0]), 'w').write('\n'.join(L) + '\n')
        if opt % 2: evs.append(rd('dynmat', pwscf.read_dynmat, work, natoms=nat))
        else: evs.append(rd('dynmat', pwscf.read_dynmat, path=work, natoms=nat, filename=names[0], axsf=names[1]))
        cols = {0: 'm', 2: 'thz', 1: 'f', 5: 'd'}
        e0, al = call(pwscf.read_dynmat_ir_raman, pj(names[0]), natoms=nat, cols=None)
        e1, c1 = call(pwscf.read_dynmat_ir_raman, pj(names[0]), natoms=nat)
        e2, c2 = call(pwscf.read_dynmat_out, pj(names[0]), natoms=nat, cols=cols)
        cc = []
        if e1 == '' and e2 == '':
            for i, n in ((1, 'freqs'), (3, 'ir'), (4, 'raman'), (5, 'depol')): cc.append(dict(i=i, v=nd(c1.get(n, []), 10**4, 1e-3)))
            for i, n in cols.items(): cc.append(dict(i=i, v=nd(c2.get(n, []), 10**4, 1e-3)))
        evs.append(dict(op='table', exc=e0 or e1 or e2, all=nd(al, 10**4, 1e-3), cols=cc))
    elif kind == 'freq':
        nb = 3 * nat
        f = phfile(rng, nq, nat, step=100)
        hdr.update(f=f, nb=nb)
        per = [6, 6, 10, nb][opt % 4]
        L = [' &plot nbnd=%4i, nks=%4i /' % (nb, nq)]
        for q in f:
            L.append((' ' * 10 if opt % 2 else '') + '%10.6f%10.6f%10.6f' % tuple(x / S6 for x in q['q']))
            for k in range(0, nb, per): L.append(''.join('%10.4f' % (x / S6) for x in q['w'][k:k + per]))
        cut = opt in (3, 4, 9) and len(L) > 2
        if cut: L = L[:rng.randrange(1, len(L))]
        open(pj('matdyn.freq'), 'w').write('\n'.join(L) + '\n')
        exc, r = call(pwscf.read_matdyn_freq, pj('matdyn.freq'))
        ev = dict(op='freq', exc=exc, cut=cut, q=nd(None), w=nd(None))
        if exc == '':
            e, r = call(lambda: (nd(r[0], S6, 1e-3), nd(r[1], S6, 1e-3)))
            if e == '': ev.update(q=r[0], w=r[1])
        evs.append(ev)
    elif kind == 'path':
        nv = max(nat, 2)
        M = [3, 3, 3, 2, 1][opt % 5]
        v = [[rng.randrange(-12, 13) for k in range(M)] for i in range(nv)]
        if opt % 4 == 3: v[-1] = list(v[0])
        sc_ = [1, 2, 6, 10 / 7][opt % 4]
        arr = np.array(v, dtype=float) / sc_
        if sc_ == 1 and opt % 2: arr = np.array(v)
        N = nq
        exc, r = call(kpath.kpath, arr, N) if opt != 1 else call(kpath.kpath, arr, N=N)
        out = [[-999]]
        if exc == '': e, out = call(lambda: [[snap(x * N * sc_, 1, 1e-8) for x in row] for row in np.asarray(r)])
        evs.append(dict(op='kpath', exc=exc, v=v, n=N, out=out))
        if opt == 0:
            exc, r = call(kpath.kpath, arr)
            if exc == '': e, out = call(lambda: [[snap(x * 10 * sc_, 1, 1e-8) for x in row] for row in np.asarray(r)])
            evs.append(dict(op='kpath', exc=exc, v=v, n=10, out=out))
        # points whose distances are integers
        p = np.array(rng.choice(PY)); pts = [p]
        for i in range(nv - 1):
            d = list(rng.choice(PY)); rng.shuffle(d)
            pts.append(pts[-1] + np.array(d) * rng.choice([1, -1]))
        s = rng.choice([1., 10., 7.])
        P = np.array(pts)
        def norm():
            if opt % 3 == 0: return kpath.get_path_norm(P / s)
            if opt % 3 == 1: return kpath.SpecialPointsPath(ks=P / s, ks_frac=P / s, symbols=['x'] * nv).path_norm
            return kpath.SpecialPointsPath(ks=P / s, symbols=['x'] * nv).path_norm
        exc, r = call(norm)
        e, out = call(lambda: [snap(x * s) for x in r])
        evs.append(dict(op='norm', exc=exc, v=[[int(x) for x in q] for q in pts], out=out if e == '' else [-1]))
    elif kind == 'text':
        n = nat
        el = [rng.choice(ELS) for i in range(n)]
        def num():
            r = rng.random()
            if r < .1: return 0.
            if r < .2: return float(rng.randrange(-9, 10)) + 0.
            if r < .3: return rng.uniform(-1, 1) * 10.**rng.randrange(-12, 9)
            return rng.uniform(-30, 30)
        X = [[num() for k in range(3)] for i in range(n)]
        rows = [[el[i]] + [repr(x) for x in X[i]] for i in range(n)]
        sy = [el, tuple(el), np.array(el)][opt % 3]
        A = np.array(X)
        kw = [{}, dict(delim='  '), dict(eps=-1), dict(fmt='%25.16e')][opt % 4]
        if opt == 7: A = A[:, ::-1][:, ::-1]
        exc, t = call(pwscf.atpos_str, sy, X if opt == 6 else A, **kw)
        e, o = call(parse_rows, t, (1, 2, 3))
        evs.append(dict(op='atpos', exc=exc, rows=rows, out=o if e == '' else [['bad']]))
        exc, t = call(pwscf.atpos_str_fast, sy, A)
        e, o = call(parse_rows, t, (1, 2, 3))
        evs.append(dict(op='atpos_fast', exc=exc, rows=rows, out=o if e == '' else [['bad']]))
        ms = [rng.choice([1.008, 26.981538, rng.uniform(1, 250)]) for x in el]
        pp = ['%s.%s-rrkj.UPF' % (x, rng.choice(['pbe', 'pz'])) for x in el]
        exc, t = call(pwscf.atspec_str, sy, [str(m) for m in ms] if opt % 2 else ms, pp)
        e, o = call(parse_rows, t, (1,))
        evs.append(dict(op='atspec', exc=exc, rows=[[el[i], repr(ms[i]), pp[i]] for i in range(n)], out=o if e == '' else [['bad']]))
        # small numbers in units of eps/4
        u = 2.**-54
        k = [rng.choice([0, 1, 2, 3, 4, 5, 8, 100, 10**6]) * rng.choice([1, -1]) for i in range(3 * n)]
        B = np.array(k, dtype=float).reshape(n, 3) * u
        e4 = rng.choice([4, 4, 8, 1000, -1])
        kw = {} if e4 == 4 and rng.random() < .5 else dict(eps=e4 * u)
        exc, t = call(pwscf.atpos_str, sy, B, **kw)
        e, o = call(lambda: [snap(float(x), 2.**54, 0) for l in t.split('\n') for x in l.split()[1:]])
        evs.append(dict(op='eps', exc=exc, v=k, eps=e4, out=o if e == '' else [-1]))
    else:
        l = [rng.choice([1, 1, 2, 3, 8, 15]) for k in range(3)] if opt % 4 else [1, 1, 1]
        sh = [rng.randrange(2) for k in range(3)]
        mk = lambda x: [list, tuple, np.array][rng.randrange(3)](x)
        base = rng.choice(['nk', 'nq', 'nr'])
        exc, t = call(pwscf.kpoints_str, mk(l)) if base == 'nk' and opt % 2 else call(pwscf.kpoints_str, mk(l), base=base)
        e, o = call(lambda: [dict(k=p.split('=')[0].strip(), v=p.split('=')[1].strip()) for p in t.split(',')])
        evs.append(dict(op='kstr', exc=exc, base=base, l=l, out=o if e == '' else []))
        usesh = opt % 3 > 0
        exc, t = call(pwscf.kpoints_str_pwin, mk(l), shift=mk(sh)) if usesh else call(pwscf.kpoints_str_pwin, mk(l))
        evs.append(dict(op='kpwin', exc=exc, l=l, shift=sh if usesh else [0, 0, 0], out=ints(t)))
        for word in (False, True):
            g = rng.random() < .5
            kw = {} if g and opt % 2 else dict(gamma=g)
            if usesh: kw['shift'] = mk(sh)
            exc, t = call(pwscf.kpoints_str_pwin_full, 'gamma' if word else mk(l), **kw)
            t = (t or '').split('\n')
            h = t[0].split()
            evs.append(dict(op='kfull', exc=exc, l=l, shift=sh if usesh else [0, 0, 0], gamma=g, word=word, card=h[1] if len(h) == 2 and h[0] == 'K_POINTS' else '?', out=ints(' '.join(t[1:]))))
    return hdr, evs


main(globals())
