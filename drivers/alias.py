import hashlib, copy
import numpy as np
from _base import *
from pwtools import crys, pydos, signal, num, eos, mpl
from pwtools.crys import Structure, Trajectory

SY = ['Al', 'C', 'Ca', 'Cl', 'H', 'N', 'O', 'Si']


def dig(v, depth=0):
    """content digest: list of [name, hash]"""
    def h(x):
        if isinstance(x, np.ndarray):
            return 'a%s%s%s' % (x.shape, x.dtype.str, hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest()[:12])
        if isinstance(x, (Structure,)):
            return repr([(n, h(getattr(x, n, None))) for n in sorted(set(x.attr_lst) | {'units'})])
        if isinstance(x, dict):
            return 'd' + repr(sorted((repr(k), h(y)) for k, y in x.items()))
        if isinstance(x, (list, tuple)):
            return type(x).__name__ + repr([h(y) for y in x])
        return repr(x)
    if isinstance(v, Structure):
        return [[n, hashlib.md5(h(getattr(v, n, None)).encode()).hexdigest()[:8]] for n in sorted(set(v.attr_lst))]
    return [['.', hashlib.md5(h(v).encode()).hexdigest()[:8]]]


def mutate(v):
    """change in place everything mutable reachable from v"""
    what = []
    def m(x):
        if isinstance(x, np.ndarray):
            if x.size == 0 or not x.flags.writeable or x.ndim == 0: return False
            if x.dtype == bool: np.logical_not(x, out=x)
            elif x.dtype.kind in 'iuf': x += 1
            else: return False
            return True
        if isinstance(x, list):
            for y in x: m(y)
            x.append(x[0] if x else 0)
            return True
        if isinstance(x, dict):
            for y in x.values(): m(y)
            x['__new__'] = 1
            for k in list(x):
                if isinstance(x[k], int): x[k] += 1
            return True
        return False
    if isinstance(v, Structure):
        for n in sorted(set(v.attr_lst)):
            if m(getattr(v, n, None)): what.append(n)
    elif m(v):
        what.append('.')
    return what


def mk(rng, kind, nat=None, n=None, full=None, sym=None):
    nat = nat or rng.choice([1, 2, 3])
    n = n or rng.choice([3, 4])
    full = rng.random() < .7 if full is None else full
    A = lambda *s: np.array([rng.uniform(-1, 1) for i in range(int(np.prod(s)))]).reshape(s)
    m = () if kind == 'S' else (n,)
    kw = dict(cell=np.eye(3) * 6 + A(*(m + (3, 3))) * .5, symbols=sym or [rng.choice(SY) for i in range(nat)])
    kw[rng.choice(['coords', 'coords_frac'])] = A(*(m + (nat, 3)))
    if rng.random() < .2 and kind == 'T' and not full: kw['cell'] = kw['cell'][0]
    for a, s in (('forces', (nat, 3)), ('stress', (3, 3)), ('etot', ()), ('velocity', (nat, 3))):
        if (full or rng.random() < .5) and (a != 'velocity' or kind == 'T'):
            kw[a] = A(*(m + s)) if m + s else rng.uniform(-1, 1)
    if kind == 'T' and (full or rng.random() < .5): kw['timestep'] = 1.5
    return Structure(**kw) if kind == 'S' else Trajectory(**kw)


def derive(how, o, rng):
    if how == 'copy': return o.copy()
    if how == 'item': return o[rng.randint(-o.nstep, o.nstep - 1)]
    if how == 'iter': return [s for s in o][rng.randrange(o.nstep)]
    if how == 'concat1': return crys.concatenate([o])
    if how == 'concat2': return crys.concatenate([o, o])
    if how == 'mean': return crys.mean(o)
    if how == 'scell': return crys.scell(o, (rng.choice([1, 2]), 1, rng.choice([1, 2])), method=1 if o.is_traj else rng.choice([1, 2]))
    if how == 'struct2traj': return rng.choice([lambda: crys.struct2traj(o), lambda: o.get_traj(1), lambda: o.get_traj(2)])()
    if how == 'smooth': return crys.smooth(o, np.hanning(5), method=rng.choice([1, 2]))
    if how == 'mix': return crys.mix(o, o, np.array([0, .25, 1]))
    if how == 'wrap': return crys.pbc_wrap(o)
    if how == 'center': return crys.center_on_atom(o, idx=rng.randrange(o.natoms))
    if how == 'align': return crys.align_cart(o, cart=np.linalg.qr(R(rng, 3, 3))[0])
    if how == 'compress': return crys.compress(o, copy=True)
    raise ValueError(how)


HOW = dict(S=['copy', 'concat1', 'concat2', 'scell', 'struct2traj', 'mix', 'wrap', 'center', 'align'], T=['copy', 'item', 'iter', 'concat1', 'concat2', 'mean', 'scell', 'smooth', 'wrap', 'center', 'align', 'compress'])


def R(rng, *s):
    return np.array([rng.uniform(-1, 1) for i in range(int(np.prod(s)))]).reshape(s)


def lay(rng, a):
    """some memory layout of the same values"""
    k = rng.randrange(3)
    if k == 1: return np.asfortranarray(a)
    if k == 2 and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],)); b[..., ::2] = a
        return b[..., ::2]
    return a


def calls(rng):
    """name -> (args list, function of the args)"""
    S = lambda **k: mk(rng, 'S', full=True, **k)
    T = lambda **k: mk(rng, 'T', full=True, **k)
    cell = lambda: lay(rng, np.eye(3) * 5 + R(rng, 3, 3))
    cell3 = lambda: lay(rng, np.eye(3) * 5 + R(rng, 3, 3, 3))
    cc = lambda: lay(rng, np.array([4., 5, 6, 80, 90, 100]) + R(rng, 6))
    cc2 = lambda: lay(rng, np.array([4., 5, 6, 80, 90, 100]) + R(rng, 3, 6))
    obj = lambda **k: (S if rng.random() < .5 else T)(**k)
    so = lambda: S(nat=3)
    sl = lambda a: (lambda *x: None)
    d = {}
    def c(name, args, f): d[name] = (args, f)
    c('volume_cell', [cell()], crys.volume_cell)
    c('volume_cell3d', [cell3()], crys.volume_cell3d)
    c('volume_cc', [cc()], crys.volume_cc)
    c('volume_cc3d', [cc2()], crys.volume_cc3d)
    c('cell2cc', [cell()], crys.cell2cc)
    c('cell2cc3d', [cell3()], crys.cell2cc3d)
    c('cc2cell', [cc()], crys.cc2cell)
    c('cc2cell3d', [cc2()], crys.cc2cell3d)
    c('recip_cell', [cell()], crys.recip_cell)
    c('grid_in_cell', [cell()], lambda x: crys.grid_in_cell(x, h=1, even=True, fullout=True))
    c('kgrid', [cell()], lambda x: crys.kgrid(x, h=0.5))
    c('kgrid_size', [cell(), [2, 2, 3]], lambda x, s: crys.kgrid(x, size=s))
    c('cc2celldm', [cc()], lambda x: crys.cc2celldm(x, fac=2))
    c('celldm2cc', [crys.cc2celldm(cc())], lambda x: crys.celldm2cc(x, fac=2))
    c('scell', [obj(), [2, 1, 2]], crys.scell)
    c('velocity_traj', [lay(rng, R(rng, 4, 2, 3))], lambda x: crys.velocity_traj(x, dt=.5, endpoints=rng.random() < .5))
    c('rmsd', [T()], lambda x: crys.rmsd(x, rng.choice([0, -1])))
    c('pbc_wrap_coords', [lay(rng, R(rng, 4, 2, 3) * 3), [True, False, True]], lambda x, m: crys.pbc_wrap_coords(x, mask=m))
    c('pbc_wrap', [obj()], crys.pbc_wrap)
    c('coord_trans', [lay(rng, R(rng, 4, 2, 3)), cell(), cell()], lambda x, o, n: crys.coord_trans(x, old=o, new=n))
    c('coord_trans_axis', [lay(rng, R(rng, 4, 3, 2)), cell(), cell()], lambda x, o, n: crys.coord_trans(x, old=o, new=n, axis=1))
    c('coord_trans3d', [lay(rng, R(rng, 3, 2, 3)), cell3(), cell3()], lambda x, o, n: crys.coord_trans3d(x, old=o, new=n))
    c('min_image_convention', [lay(rng, R(rng, 3, 3, 3) * 2)], lambda x: crys.min_image_convention(x, copy=True))
    c('rmax_smith', [cell()], crys.rmax_smith)
    sym = ['Ca', 'Ca', 'O']
    t0 = mk(rng, 'T', nat=3, n=3, sym=sym, full=True)
    t0 = Trajectory(coords_frac=t0.coords_frac, cell=t0.cell[0], symbols=sym)
    c('rpdf_1', [[t0], ['Ca']], lambda tr, am: crys.rpdf(tr, amask=am, dr=.5))
    c('rpdf_2', [[t0, t0], ['Ca', 'O']], lambda tr, am: crys.rpdf(tr, amask=am, dr=.5))
    c('rpdf_3', [t0, [np.array([True, False, True]), np.array([True, True, False])]], lambda tr, am: crys.rpdf(tr, amask=am, dr=.5, norm_vmd=True, pbc=rng.random() < .5))
    c('rpdf_tmask', [t0, ['Ca', 'O']], lambda tr, am: crys.rpdf(tr, amask=am, dr=.5, tmask=rng.choice([np.s_[-1], np.s_[0:2]]), dmask='<4'))
    c('distances', [so()], lambda s: crys.distances(s, pbc=rng.random() < .5, fullout=True, squared=rng.random() < .5))
    c('distances_traj', [T(nat=3)], lambda s: crys.distances_traj(s, pbc=rng.random() < .5))
    c('angles', [so()], lambda s: crys.angles(s, pbc=rng.random() < .5))
    c('nearest_neighbors', [so(), ['H', 'Al']], lambda s, k: crys.nearest_neighbors(s, idx=1, skip=k, num=2, fullout=True, sort=rng.random() < .5))
    c('nearest_neighbors_cut', [so()], lambda s: crys.nearest_neighbors(s, idx=0, cutoff=4, pbc=False))
    c('nearest_neighbors_from_dists', [crys.distances(so()), ['H', 'Al', 'C'], ['C']], lambda dd, s, k: crys.nearest_neighbors_from_dists(dd, s, idx=1, skip=k, num=2))
    c('nearest_neighbors_struct', [so()], lambda s: crys.nearest_neighbors_struct(s, idx=1, num=1))
    c('center_on_atom', [obj(nat=2)], lambda s: crys.center_on_atom(s, idx=1))
    c('compress', [T(), ['coords', 'stress']], lambda s, f: crys.compress(s, copy=True, forget=f))
    c('concatenate', [[S(nat=2), T(nat=2)]], crys.concatenate)
    c('mean', [T()], crys.mean)
    c('smooth', [T(n=4), np.ones(3)], lambda t, k: crys.smooth(t, k, method=rng.choice([1, 2])))
    c('mix', [S(nat=2, sym=['C', 'H']), S(nat=2, sym=['C', 'H']), np.array([0, .5, 1])], crys.mix)
    rot = np.linalg.qr(R(rng, 3, 3))[0]
    c('align_cart', [obj(), rot], lambda s, m: crys.align_cart(s, cart=m))
    c('align_cart_xy', [obj(), np.array([2., 0, 0]), np.array([0, 0, 3.])], lambda s, x, y: crys.align_cart(s, x=x, y=y))
    c('align_cart_vecs', [obj(), np.array([[0, 0, 0], [0, 1., 0], [0, 0, 4]])], lambda s, v: crys.align_cart(s, vecs=v))
    c('tensor2voigt', [R(rng, 3, 3)], crys.tensor2voigt)
    c('voigt2tensor', [R(rng, 6)], crys.voigt2tensor)
    c('tensor2voigt3d', [R(rng, 2, 3, 3)], crys.tensor2voigt3d)
    c('voigt2tensor3d', [R(rng, 2, 6)], crys.voigt2tensor3d)
    vel = lambda: lay(rng, R(rng, 6, 2, 3))
    ms = lambda: np.array([1., 16])
    for k in (1, 2, 3): c('pyvacf%d' % k, [vel(), ms()], lambda v, m, k=k: pydos.pyvacf(v, m=m, method=k))
    for k in (1, 2): c('fvacf%d' % k, [vel(), ms()], lambda v, m, k=k: pydos.fvacf(v, m=m, method=k))
    c('fvacf_nomass', [vel()], pydos.fvacf)
    for w in (True, False):
        c('pdos_direct%d' % w, [vel(), ms()], lambda v, m, w=w: pydos.pdos(v, m=m, window=w, npad=rng.choice([None, 1]), tonext=False, full_out=rng.random() < .5))
        c('pdos_vacf%d' % w, [vel(), ms()], lambda v, m, w=w: pydos.pdos(v, m=m, window=w, method='vacf', mirr=rng.random() < .5, full_out=rng.random() < .5))
    c('direct_pdos', [vel(), ms()], lambda v, m: pydos.direct_pdos(v, m=m))
    c('vacf_pdos', [vel(), ms()], lambda v, m: pydos.vacf_pdos(v, m=m))
    for k in range(1, 8): c('acorr%d' % k, [lay(rng, R(rng, 7))], lambda v, k=k: signal.acorr(v, method=k, norm=rng.random() < .5))
    c('pad_zeros', [lay(rng, R(rng, 4, 3))], lambda a: signal.pad_zeros(a, axis=rng.choice([0, 1]), where=rng.choice(['start', 'end']), nadd=2))
    c('mirror', [lay(rng, R(rng, 4))], signal.mirror)
    c('smooth1d', [lay(rng, R(rng, 12)), np.hanning(5)], lambda a, k: signal.smooth(a, k, edge=rng.choice('mc')))
    c('smooth3d', [lay(rng, R(rng, 12, 2, 3)), np.hanning(5)[:, None, None]], lambda a, k: signal.smooth(a, k, edge=rng.choice('mc')))
    c('find_peaks', [R(rng, 12), np.linspace(0, 1, 12)], lambda y, x: signal.find_peaks(y, x))
    c('ezfft', [R(rng, 8)], signal.ezfft)
    c('fft_1d_loop', [lay(rng, R(rng, 4, 3))], signal.fft_1d_loop)
    c('dft', [R(rng, 8)], lambda a: signal.dft(a, method=rng.choice(['loop', 'matmul'])))
    c('scale', [lay(rng, R(rng, 8))], signal.scale)
    c('normalize', [R(rng, 5)], num.normalize)
    c('norm_int', [np.abs(R(rng, 7)) + 1, np.linspace(0, 1, 7)], lambda y, x: num.norm_int(y, x, scale=rng.random() < .5))
    c('deriv_spl', [R(rng, 7), np.linspace(0, 1, 7)], lambda y, x: num.deriv_spl(y, x, n=1))
    c('slicetake', [lay(rng, R(rng, 4, 3))], lambda a: num.slicetake(a, slice(0, 2), axis=rng.choice([0, 1]), copy=True))
    c('extend_array', [R(rng, 2, 3)], lambda a: num.extend_array(a, 3, axis=rng.choice([0, 1, -1])))
    c('sum', [lay(rng, R(rng, 2, 3, 4))], lambda a: num.sum(a, axis=rng.choice([0, 1, (0, 2)]), keepdims=rng.random() < .5))
    c('distsq', [lay(rng, R(rng, 4, 3)), lay(rng, R(rng, 5, 3))], num.distsq)
    c('rms', [R(rng, 4, 3)], num.rms)
    c('rms3d', [R(rng, 4, 2, 3)], lambda a: num.rms3d(a, axis=rng.choice([0, 1]), nitems='all'))
    c('inner_points_mask', [R(rng, 12, 2)], num.inner_points_mask)
    c('polyfit', [lay(rng, R(rng, 12, 2)), R(rng, 12)], lambda p, v: num.polyval(num.polyfit(p, v, 2, scale=rng.random() < .5), p))
    c('vander', [R(rng, 12, 2)], lambda p: num.vander(p, 2))
    c('match_mask', [np.arange(6), np.array([1, 3])], num.match_mask)
    c('order_similar', [R(rng, 5, 3)], num.order_similar)
    c('euler', [[.1, .2, .3]], lambda a: num.euler_matrix(*a))
    return d


def from_mc(x):
    return dict(hist=x, seed=0)


def gen(rng, tier):
    res = []
    for i in range(60 if tier == 'quick' else 800):
        hist = [dict(op='make', kind=rng.choice('ST'))]
        kinds = [hist[0]['kind']]
        for k in range(rng.randint(2, 7)):
            if rng.random() < .5 or len(kinds) == 1:
                j = rng.randrange(len(kinds))
                how = rng.choice(HOW[kinds[j]])
                hist.append(dict(op='derive', how=how, i=j + 1))
                kinds.append('S' if how in ('item', 'mean', 'iter') else 'T' if how.startswith(('concat', 'struct', 'mix')) else kinds[j])
            else:
                hist.append(dict(op='mutate', i=rng.randrange(len(kinds)) + 1))
        hist += [dict(op='mutate', i=len(kinds)), dict(op='mutate', i=1)]
        res.append(dict(hist=hist, seed=rng.randrange(10**6)))
    for i in range(3 if tier == 'quick' else 40):
        s = rng.randrange(10**6)
        for name in calls(random.Random(s)):
            res.append(dict(call=name, seed=s))
    return res


def run(sc, work):
    rng = random.Random(sc['seed'])
    if 'call' in sc:
        args, f = calls(rng)[sc['call']]
        d0 = [dig(a) for a in args]
        exc, _ = call(f, *args)
        return {}, [dict(op='make', digs=d0), dict(op='call', name=sc['call'], exc=exc, digs=[dig(a) for a in args])]
    objs, evs = [], []
    for o in sc['hist']:
        e = dict(o)
        if o['op'] == 'make':
            objs.append(mk(rng, o['kind']))
        elif o['op'] == 'derive':
            e['exc'], r = call(derive, o['how'], objs[o['i'] - 1], rng)
            if e['exc']:
                e['digs'] = [dig(x) for x in objs]
                evs.append(e)
                break
            objs.append(r)
        else:
            e['what'] = mutate(objs[o['i'] - 1])
        e['digs'] = [dig(x) for x in objs]
        evs.append(e)
        # deriving from an object whose lists were changed in place makes no sense
        if o['op'] == 'mutate' and any(q['op'] == 'derive' for q in sc['hist'][len(evs):]):
            for q in list(sc['hist'][len(evs):]):
                if q['op'] == 'mutate' and q['i'] <= len(objs):
                    e = dict(q); e['what'] = mutate(objs[q['i'] - 1]); e['digs'] = [dig(x) for x in objs]; evs.append(e)
            break
    return {}, evs


if __name__ == '__main__':
    main(globals())
