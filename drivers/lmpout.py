import numpy as np
from _base import *
from pwtools import io as pio
from pwtools import parse

WORKERS = 8
BOHR = 0.52917720859           # Ang
ELS = ['H', 'Al', 'N', 'Si', 'O']
THERMO = ['Temp', 'Volume', 'Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma', 'PotEng', 'KinEng', 'TotEng', 'Press', 'Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz', 'CPU']
GROUP = dict(xu=['xu', 'yu', 'zu'], xsu=['xsu', 'ysu', 'zsu'], fx=['fx', 'fy', 'fz'], vx=['vx', 'vy', 'vz'], type=['type'], x=['x', 'y', 'z'], id=['id'], xs=['xs', 'ys', 'zs'])


def from_mc(x):
    h = x['lo'] * 7 + sum((i + 2) * t for i, t in enumerate(x['tilt'])) + 3 * len(x['cols']) + len(x['sym']) + sum(map(len, x['cols']))
    if h % (19 if TIER == 'quick' else 23): return []
    return dict(lo=x['lo'], tilt=x['tilt'], cols=[c for g in x['cols'] or ['xu'] for c in GROUP[g]], sym=x['sym'], n=1 + h % 2, nat=1 + (h // 19) % 3, seed=h, thermo=THERMO)


def gen(rng, tier):
    out = []
    for i in range(60 if tier == 'quick' else 700):
        gs = [g for g in ['xu', 'xsu', 'fx', 'vx', 'type', 'x', 'id', 'xs'] if rng.random() < .6] or ['xu']
        cols = [c for g in gs for c in GROUP[g]]
        if rng.random() < .5: rng.shuffle(cols)
        if rng.random() < .2: cols.pop(rng.randrange(len(cols)))
        th = [k for k in THERMO if rng.random() < .85]
        if rng.random() < .5: rng.shuffle(th)
        out.append(dict(lo=rng.randint(-3, 3), tilt=rng.choice([[], [rng.randint(-3, 3) for k in range(3)], [rng.randint(-3, 3) for k in range(3)]]), cols=cols or ['xu'], sym=rng.choice(['file', 'elem', 'order', 'none', 'elem']),
                        n=rng.choice([1, 1, 2, 3, 9]), nat=rng.choice([1, 1, 2, 3, 7, 12]), seed=rng.randrange(10**6), thermo=th, runs=rng.choice([0, 1, 1, 1, 2, 3]), nodump=rng.random() < .15))
    return out


def make(sc, rng):
    n, nat = sc['n'], sc['nat']
    ty = [rng.randint(1, 3) for i in range(nat)]
    names = rng.sample(ELS, 3)
    f = dict(head=['Step'] + sc['thermo'], dt=rng.choice([0, rng.randint(1, 5000)]))
    nr = sc.get('runs', 1)
    f['runs'] = [[[1000 * (t + r)] + [rng.randint(-99999, 99999) for k in sc['thermo']] for t in range(n)] for r in range(nr)]
    frames = []
    D = dict(nat=nat, cols=sc['cols'], frames=frames)
    def box():
        lo = [sc['lo'] * 1000 + rng.randint(-400, 400) for k in range(3)]
        L = [rng.randint(3000, 16000) for k in range(3)]
        t = [x * 1000 + rng.randint(-400, 400) for x in sc['tilt']]
        u = t or [0, 0, 0]
        # LAMMPS manual, "triclinic": bounding box of the tilted cell
        ex, ey = [0, u[0], u[1], u[0] + u[1]], [0, u[2]]
        return dict(b=[[lo[0] + min(ex), lo[0] + L[0] + max(ex)], [lo[1] + min(ey), lo[1] + L[1] + max(ey)], [lo[2], lo[2] + L[2]]], t=t)
    for q in range(n if nr <= 1 else n * nr - (nr - 1)):
        b = box()
        b['rows'] = [[1000 * ty[i] if c == 'type' else 1000 * (i + 1) if c == 'id' else rng.randint(-99999, 99999) for c in sc['cols']] for i in range(nat)]
        frames.append(b)
    f['dump'] = [] if sc.get('nodump') else [D]
    f['symf'] = [[names[t - 1] for t in ty]] if sc['sym'] == 'file' else []
    f['elem'] = [names] if sc['sym'] == 'elem' or (sc['sym'] in ('file', 'order') and rng.random() < .3) else []
    if sc['sym'] == 'order' and f['elem']: f['elem'] = [names[::-1]]
    f['order'] = [dict(s=s, t=t + 1) for t, s in enumerate(names)] if sc['sym'] == 'order' else []
    return f


def num(x, c=''):
    if c in ('id', 'type', 'Step'): return '%d' % (x // 1000)
    return '%.8g' % (x / 1000.)


def write(f, sc, rng, out):
    d = os.path.dirname(out)
    W = lambda fn, L: open(os.path.join(d, fn), 'w').write('\n'.join(L) + '\n')
    L = ['LAMMPS (11 Nov 2013)', '  using 1 OpenMP thread(s) per MPI task', 'units metal', 'atom_style atomic', 'read_data lmp.struct']
    L += ['dump dump_txt all custom 1 lmp.out.dump ' + ' '.join(sc['cols']), 'dump_modify dump_txt sort id']
    if f['elem']: L += ['dump_modify dump_xyz element ' + ' '.join(f['elem'][0])]
    L += ['thermo_style custom step temp vol', 'thermo 1']
    if f['dt']: L += ['timestep %s' % rng.choice([repr(f['dt'] / 1000.), '%.4e' % (f['dt'] / 1000.)])]
    for r in f['runs']:
        L += ['run %d' % len(r), 'Memory usage per processor = 2.39169 Mbytes', ' '.join(f['head']) + ' ']
        L += [' '.join('%12s' % num(x, c) for x, c in zip(row, f['head'])) + ' ' for row in r]
        L += ['Loop time of 0.115472 on 1 procs (1 MPI x 1 OpenMP) for 10 steps with 4 atoms', '', 'Pair  time (%) = 0.1 (40)', 'Neighs:    0 ave 0 max 0 min']
    W(os.path.basename(out), L)
    if f['dump']:
        D, L = f['dump'][0], []
        for t, b in enumerate(D['frames']):
            L += ['ITEM: TIMESTEP', str(t), 'ITEM: NUMBER OF ATOMS', str(D['nat'])]
            L += ['ITEM: BOX BOUNDS ' + ('xy xz yz ' if b['t'] else '') + 'pp pp pp']
            for k in range(3): L.append(' '.join([num(x) for x in b['b'][k]] + ([num(b['t'][k])] if b['t'] else [])))
            L.append('ITEM: ATOMS ' + ' '.join(D['cols']) + ' ')
            L += [' '.join(num(x, c) for x, c in zip(r, D['cols'])) + ' ' for r in b['rows']]
        W('lmp.out.dump', L)
    if f['symf']: W('lmp.struct.symbols', f['symf'][0])


def obs(a, v, f=1.0):
    if a == 'symbols': return list(v) if v is not None else []
    return nd(None if v is None else np.asarray(v, float) / f, 1000, 0.01)


ATTRS = ['cell', 'coords_frac', 'coords', 'cryst_const', 'ekin', 'etot', 'forces', 'natoms', 'stress', 'symbols', 'temperature', 'timestep', 'velocity', 'volume']


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    os.mkdir('d')
    evs = []
    f = make(sc, rng)
    fn = rng.choice(['d/log.lammps', 'log.lammps', './d/log'])
    write(f, sc, rng, fn)
    evs.append(dict(op='dir', f=f))
    kw = dict(order={o['s']: o['t'] for o in f['order']}) if f['order'] else {}
    new = lambda **k: parse.LammpsTextMDOutputFile(fn, **dict(kw, **k)) if fn != 'log.lammps' or rng.random() < .5 else parse.LammpsTextMDOutputFile(**dict(kw, **k))
    for mode in ('get', 'parse', 'cont'):
        p = new()
        if mode == 'get':
            order = list(ATTRS); rng.shuffle(order)
            for a in order + order[:2]:
                x, v = call(getattr(p, 'get_' + a))
                evs.append(dict(op='get', a=a, exc=x, o=obs(a, v) if not x else []))
        elif mode == 'parse':
            x, _ = call(p.parse)
            evs.append(dict(op='all', via='parse', exc=x, **({'as': [dict(a=a, o=obs(a, getattr(p, a))) for a in ATTRS]} if not x else {})))
        else:
            if not f['dump'] or not (set(GROUP['xu']) <= set(sc['cols']) or set(GROUP['xsu']) <= set(sc['cols'])) or len(f['runs']) > 1: continue
            fac = dict(length=1., energy=1., forces=1., stress=1e-4, time=1e3, velocity=1e-3)
            un = {}
            for k in fac:
                if rng.random() < .2: un[k] = fac[k] = rng.choice([2., .5, 1.])
            if un: p = new(units=un)
            if rng.random() < .5:
                x, c = call(pio.read_lammps_md_txt, fn, **dict(kw, **(dict(units=un) if un else {})))
            else:
                x, c = call(p.get_traj)
            L = []
            if not x:
                dim = dict(coords='length', cell='length', etot='energy', ekin='energy', forces='forces', stress='stress', timestep='time', velocity='velocity')
                have = [a for a, k in (('ekin', 'KinEng'), ('temperature', 'Temp')) if k in sc['thermo'] and f['runs']]
                for g, a in (('vx', 'velocity'), ('fx', 'forces'), ('xu', 'coords'), ('xsu', 'coords_frac')):
                    if set(GROUP[g]) <= set(sc['cols']): have.append(a)
                for a in ['natoms', 'etot', 'stress', 'symbols', 'cell', 'timestep'] + have:
                    L.append(dict(a=a, o=obs(a, getattr(c, a), fac.get(dim.get(a), 1.0))))
            evs.append(dict(op='all', via='cont', exc=x, **{'as': L}))
    return {}, evs


if __name__ == '__main__':
    main(globals())
