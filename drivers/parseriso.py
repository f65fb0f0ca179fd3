"""Histories of parser constructions and uses over all classes (C28)."""
import hashlib, json, random
import numpy as np
from _base import *
import pwout, cpmdout, cp2kout, lmpout, dcdfile
from pwtools import parse, io as pio

WORKERS = 8
BOHR, RY, HA, TH, TRYD = 0.52917720859, 13.60569193, 27.21138386, 2.418884326505e-2, 4.837768653e-2
# named factors to eV, Ang, fs, GPa
FAC = {'1': 1., 'Ry': RY, 'Ha': HA, 'Bohr': BOHR, 'Ry/Bohr': RY / BOHR, 'Ha/Bohr': HA / BOHR, '0.1': .1, '1e-4': 1e-4, '1e-3': 1e-3, '1e3': 1e3,
       'tryd': TRYD, 'thart': TH, 'Bohr/thart': BOHR / TH, 'u2': 2., 'u3': 3., 'u5': 5., 'u7': 7.}
CLS = dict(pwscf='PwSCFOutputFile', pwmd='PwMDOutputFile', pwvcmd='PwVCMDOutputFile', cpmdscf='CpmdSCFOutputFile', cpmdmd='CpmdMDOutputFile', cp2kscf='Cp2kSCFOutputFile', cp2kmd='Cp2kMDOutputFile',
           cp2krelax='Cp2kRelaxOutputFile', cp2kdcd='Cp2kDcdMDOutputFile', lmp='LammpsTextMDOutputFile', lmpdcd='LammpsDcdMDOutputFile', cif='CifFile', pdb='PDBFile')
READ = dict(pwscf='read_pw_scf', pwmd='read_pw_md', pwvcmd='read_pw_vcmd', cpmdscf='read_cpmd_scf', cpmdmd='read_cpmd_md', cp2kscf='read_cp2k_scf', cp2kmd='read_cp2k_md', cp2krelax='read_cp2k_relax',
            cp2kdcd='read_cp2k_md_dcd', lmp='read_lammps_md_txt', lmpdcd='read_lammps_md_dcd', cif='read_cif', pdb='read_pdb')
UNITED = ['coords', 'cell', 'cryst_const', 'etot', 'ekin', 'stress', 'forces', 'velocity', 'timestep', 'temperature', 'coords_frac', 'natoms']
OUT = dict(pwscf='pw.out', pwmd='pw.out', pwvcmd='pw.out', cpmdscf='cpmd.out', cpmdmd='cpmd.out', cp2kscf='cp2k.out', cp2kmd='cp2k.out', cp2krelax='cp2k.out', cp2kdcd='cp2k.out', lmp='log.lammps', lmpdcd='log.lammps', cif='x.cif', pdb='x.pdb')


def label(x):
    for k, v in FAC.items():
        if abs(x - v) <= 2e-5 * abs(v): return k
    return '?%.6g' % x


def from_mc(x):
    h = sum((i + 3) * (len(o.get('cls', '')) * 5 + sum(map(ord, o.get('cls', 'a'))) + len(o.get('u', [])) * 3 + o.get('i', 0)) for i, o in enumerate(x))
    if h % (331 if TIER == 'quick' else 97): return []
    ops, n = [], 0
    for o in x:
        if o['op'] == 'new': ops.append(dict(op='new', cls=o['cls'], dir='a', user=o['u'])); n += 1
        elif o['op'] == 'swap': ops.append(dict(op='swap', cls=o['cls']))
        else: ops.append(dict(op='cont', i=o['i']))
    ops += [dict(op='cont', i=i + 1) for i in range(n)]
    return dict(ops=ops, seed=h)


def gen(rng, tier):
    out = []
    # a run read, replaced by another one at the same place, read again; also by way of the getters
    for i, c in enumerate(CLS):
        n = dict(op='new', cls=c, dir='a', user=[])
        out.append(dict(ops=[n, dict(op='cont', i=1), dict(op='swap', cls=c), n, dict(op='get', i=2), dict(op='cont', i=2), dict(op='swap', cls=c), n, dict(op='cont', i=3), dict(op='get', i=3)], seed=i))
    for k in range(12 if tier == 'quick' else 300):
        ops, n = [], 0
        for j in range(rng.randint(5, 12)):
            q = rng.random()
            if n == 0 or q < .45:
                u = []
                if rng.random() < .4:
                    u = [dict(k=k, f=rng.choice(['u2', 'u3', 'u5', 'u7', '1'])) for k in rng.sample(['length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time'], rng.randint(1, 3))]
                if rng.random() < .05: ops.append(dict(op='new', cls=rng.choice(list(CLS)), dir='a', user=u + [dict(k=rng.choice(['mass', 'Length', 'pressure']), f='u2')])); continue
                ops.append(dict(op='new', cls=rng.choice(list(CLS)), dir=rng.choice('ab'), user=u)); n += 1
            elif q < .53: ops.append(dict(op='swap', cls=rng.choice([o['cls'] for o in ops if o['op'] == 'new'])))
            elif q < .8: ops.append(dict(op='cont', i=rng.randint(1, n)))
            elif q < .93: ops.append(dict(op='get', i=rng.randint(1, n)))
            else: ops.append(dict(op='mut', i=rng.randint(1, n)))
        ops += [dict(op='cont', i=i + 1) for i in range(n)]
        out.append(dict(ops=ops, seed=rng.randrange(10**6)))
    return out


def prep(cls, d, seed):
    """write one run directory for a class, return the file name"""
    os.makedirs(d)
    rng = random.Random('%s%s' % (cls, seed))
    fn = os.path.join(d, OUT[cls])
    R = rng.choice
    if cls.startswith('pw'):
        sc = dict(lay=dict(cell=R([True, False]), force=True, stress=True, temp=True, punit=R(['bohr', 'alat']), cunit=''), kind=dict(pwscf='scf', pwmd='md', pwvcmd='vcmd')[cls], n=R([1, 3]), nat=R([1, 2, 4]))
        if sc['lay']['cell']: sc['lay']['cunit'] = R(['', 'bohr'])
        open(fn, 'w').write(pwout.text(pwout.make(sc, rng), sc, rng))
    elif cls.startswith('cpmd'):
        sc = dict(c=dict(nat=R([1, 2, 3]), ncol=R([9, 8, 6]), ftr=True, tr=True, cel=R([True, False]), every=1, scale=True, en=True), steps=R([1, 3]), marks=[], kind=cls[4:], seed=1)
        cpmdout.write(cpmdout.make(sc, rng), sc, rng, fn)
    elif cls.startswith('cp2k'):
        k = dict(cp2kscf='scf', cp2kmd='md', cp2krelax='relax', cp2kdcd='md')[cls]
        c = dict(cls=k, rt=dict(scf='ENERGY_FORCE', md='MD', relax='CELL_OPT')[k], nat=R([1, 2, 3]), pos=True, frc=k == 'md', vel=k == 'md', en=k == 'md', str=True, cel=True, natp=True, fo=True)
        sc = dict(c=c, n=R([1, 3]), cls=k, seed=1)
        f = cp2kout.make(sc, rng)
        cp2kout.write(f, sc, rng, fn)
        if cls == 'cp2kdcd':
            s2 = dict(nat=c['nat'], n=sc['n'], nset=0, cos=False)
            f2 = dcdfile.make(s2, rng)
            for fr in f2['fr']: fr['cc'][3:] = [1000 * rng.randint(70, 110) for k in range(3)]
            dcdfile.write(os.path.join(d, 'PROJECT-pos-1.dcd'), f2, 0)
    elif cls.startswith('lmp'):
        sc = dict(lo=0, tilt=R([[], [1, 0, -1]]), cols=['type', 'xu', 'yu', 'zu', 'fx', 'fy', 'fz', 'vx', 'vy', 'vz'], sym='elem', n=R([1, 3]), nat=R([1, 2, 3]), thermo=lmpout.THERMO)
        lmpout.write(lmpout.make(sc, rng), sc, rng, fn)
        if cls == 'lmpdcd':
            s2 = dict(nat=sc['nat'], n=sc['n'], nset=0, cos=True)
            f2 = dcdfile.make(s2, rng)
            for fr in f2['fr']: fr['cc'][3:] = [100, 200, 150]
            dcdfile.write(os.path.join(d, 'lmp.out.dcd'), f2, 0)
    elif cls == 'cif':
        open(fn, 'w').write('data_x\n' + ''.join('_cell_length_%s %.3f\n' % (k, rng.randint(2000, 9000) / 1000.) for k in 'abc') + ''.join('_cell_angle_%s 90\n' % k for k in ('alpha', 'beta', 'gamma'))
                            + 'loop_\n_atom_site_type_symbol\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n' + ''.join('Al %.3f %.3f %.3f\n' % tuple(rng.random() for k in range(3)) for i in range(2)))
    else:
        open(fn, 'w').write('CRYST1   %.3f    4.678    3.017  90.00  90.00  90.00 P 1           1\n' % (rng.randint(3000, 9000) / 1000.) + ''.join('ATOM      %d  N   AXS     1      %.3f   %.3f   1.508  1.00  0.00\n' % (i + 1, rng.random() * 5, rng.random() * 5) for i in range(2)))
    return fn


def digest(c):
    h = hashlib.md5()
    for a in sorted(c.attr_lst):
        v = getattr(c, a)
        if v is None: h.update(('%s:none;' % a).encode())
        elif a == 'spglib_spg_sym': continue
        elif isinstance(v, (list, tuple)): h.update(('%s:%r;' % (a, v)).encode())
        else:
            try: h.update(('%s:%s;' % (a, np.array2string(np.asarray(v, float), precision=7, threshold=10**9))).encode())
            except Exception: h.update(('%s:%r;' % (a, v)).encode())
    return h.hexdigest()


def getc(p):
    return p.get_traj() if isinstance(p, parse.TrajectoryFileParser) else p.get_struct()


def mk(cls, fn, user):
    C = getattr(parse, CLS[cls])
    return C(fn, units=user) if user else C(fn)


def ratios(cls, fn, c):
    """container value over printed value, per attribute"""
    L = []
    ref = getattr(parse, CLS[cls])(fn)
    for a in UNITED:
        f = 'none'
        v = getattr(c, a, None)
        if hasattr(ref, 'get_' + a) and a in ref.attr_lst:
            x, w = call(getattr(ref, 'get_' + a))
            if not x and w is not None and v is None: f = 'missing'
            elif not x and w is not None:
                v, w = np.asarray(v, float), np.asarray(w, float)
                if a == 'cryst_const': v, w = v[..., :3], w[..., :3]
                if v.ndim == w.ndim + 1 and a != 'timestep': w = np.broadcast_to(w, v.shape)
                if v.shape == w.shape and w.size and np.abs(w).max() > 0:
                    i = np.abs(w).argmax()
                    k = v.ravel()[i] / w.ravel()[i]
                    f = label(k) if np.allclose(v, w * k, rtol=1e-9, atol=1e-12 * np.abs(v).max()) else 'notscaled'
                elif v.shape != w.shape: f = 'shape'
        L.append(dict(a=a, f=f))
    return L


def raw(p):
    h = hashlib.md5()
    for a in p.attr_lst:
        x, v = call(getattr(p, 'get_' + a))
        h.update(repr((a, x, np.asarray(v).tolist() if not x and v is not None else None)).encode())
    return h.hexdigest()


def run(sc, work):
    os.chdir(work)
    fns = {}
    evs = []
    ops = sc['ops']
    # directories which change places later on: both are needed
    both = {o['cls'] for o in ops if o['op'] == 'swap'}
    for o in [dict(o, dir=d) for o in ops if o['op'] == 'new' for d in ([o['dir']] if o['cls'] not in both else 'ab')]:
        if (o['cls'], o['dir']) not in fns: fns[o['cls'], o['dir']] = os.path.abspath(prep(o['cls'], '%s_%s' % (o['cls'], o['dir']), '%s-%s' % (sc['seed'], o['dir'])))
    ud = lambda o: {u['k']: FAC[u['f']] for u in o['user']}
    seen, refs = [], {}
    for o in [dict(o, dir=d) for o in ops if o['op'] == 'new' for d in ([o['dir']] if o['cls'] not in both else 'ab')]:
        k = (o['cls'], o['dir'], sorted((u['k'], u['f']) for u in o['user']))
        if k in seen: continue
        seen.append(k)
        fn = fns[o['cls'], o['dir']]
        def solo():
            if len(fn) % 2 or o['dir'] == 'b':       # the reading functions are the same
                x, c = call(getattr(pio, READ[o['cls']]), fn, **(dict(units=ud(o)) if o['user'] else {}))
            else:
                p = mk(o['cls'], fn, ud(o))
                x, c = call(getc, p)
            return [x, digest(c) if not x else '']
        x, r = dcdfile.child(solo)
        evs.append(dict(op='solo', cls=o['cls'], dir=o['dir'], user=o['user'], exc=x or r[0], dig='' if x else r[1]))
        x, r = dcdfile.child(lambda: raw(mk(o['cls'], fn, None)))
        refs[o['cls'], o['dir']] = r if not x else x
    defs = lambda: json.dumps([[k, sorted((a, repr(b)) for a, b in getattr(parse, v).default_units.items())] for k, v in sorted(CLS.items())])
    evs.append(dict(op='defs', d=defs()))
    inst = []
    dead = set(); refd = []
    place = {c: dict(a='a', b='b') for c in CLS}        # path -> which content is there
    units = lambda: [{k: label(v) for k, v in p.units.items()} for p, *_ in inst]
    for o in ops:
        if o['op'] == 'new':
            u = ud(o); keep = dict(u)
            fn = fns[o['cls'], o['dir']]
            x, p = call(mk, o['cls'], fn, u)
            if not x: inst.append((p, o, u, fn))
            o = dict(o, path=o['dir'], dir=place[o['cls']][o['dir']])
            if not x: refd.append(o['dir'])
            evs.append(dict(o, exc=x, kept=u == keep, units=units(), defs=defs()))
        elif o['op'] == 'swap':
            # the two runs change places: other files at the same paths
            c = o['cls']
            if (c, 'a') not in fns: continue
            A, B = '%s_a' % c, '%s_b' % c
            os.rename(A, 'tmp'); os.rename(B, A); os.rename('tmp', B)
            pl = place[c]; pl['a'], pl['b'] = pl['b'], pl['a']
            dead |= {i + 1 for i, q in enumerate(inst) if q[1]['cls'] == c}
            evs.append(dict(o, units=units(), defs=defs()))
        elif o['i'] > len(inst) or o['i'] in dead: continue
        elif o['op'] == 'mut':
            u = inst[o['i'] - 1][2]
            u['length'] = 11.; u['energy'] = 13.
            evs.append(dict(o, units=units()))
        elif o['op'] == 'cont':
            p, q, u, fn = inst[o['i'] - 1]
            x, c = call(getc, p)
            evs.append(dict(o, exc=x, dig=digest(c) if not x else '', r=ratios(q['cls'], fn, c) if not x else [], units=units(), defs=defs()))
        else:
            p, q, u, fn = inst[o['i'] - 1]
            evs.append(dict(o, dig=raw(p), ref=refs[q['cls'], refd[o['i'] - 1]], units=units(), defs=defs()))
    return {}, evs


if __name__ == '__main__':
    main(globals())
