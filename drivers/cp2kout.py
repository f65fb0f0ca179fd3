import numpy as np
from _base import *
from pwtools import io as pio
from pwtools import parse

WORKERS = 8
BOHR = 0.52917720859           # Ang
HA = 27.21138386               # eV
TH = 2.418884326505e-2         # fs
ELS = ['H', 'Al', 'N', 'Si', 'O']


def from_mc(x):
    c = x['c']
    h = sum((i + 1) * int(bool(v)) for i, v in enumerate(c[k] for k in ('pos', 'frc', 'vel', 'en', 'str', 'cel', 'natp', 'fo'))) + x['n'] + c['nat']
    if h % (17 if TIER == 'quick' else 19) and c['cls'] == 'md': return []
    return dict(c=c, n=x['n'], seed=h, cls=c['cls'])


def gen(rng, tier):
    out = []
    B = lambda p=.5: rng.random() < p
    for i in range(45 if tier == 'quick' else 500):
        cls = rng.choice(['md', 'md', 'relax', 'scf'])
        md = cls == 'md'
        c = dict(cls=cls, rt='MD' if md else rng.choice(['CELL_OPT', 'CELL_OPT', 'GEO_OPT']) if cls == 'relax' else 'ENERGY_FORCE', nat=rng.choice([1, 1, 2, 3, 7, 12]), pos=B(.8), frc=md and B(), vel=md and B(), en=md and B(.8), str=B(), cel=B(.7), natp=md and B(.8), fo=B(.7))
        out.append(dict(c=c, n=rng.choice([1, 1, 2, 3, 9, 12]), seed=rng.randrange(10**6), cls=cls))
    return out


def make(sc, rng):
    c, n, nat = sc['c'], sc['n'], sc['c']['nat']
    m = lambda r, k, lo, hi: [[rng.randint(lo, hi) for j in range(k)] for i in range(r)]
    last = c['rt'] == 'CELL_OPT'
    f = dict(nat=nat, sym=[rng.choice(ELS) for i in range(nat)], rt=c['rt'], natp=c['natp'], dt=rng.choice([0, rng.randint(1, 9999)]) if sc['cls'] == 'md' else 0)
    steps = lambda: [dict(e=rng.randint(-999999, -1), x=m(nat, 3, -99999, 99999)) for t in range(n + last)]
    e = steps()
    def xyz(): return [[dict(e=s['e'], x=m(nat, 3, -99999, 99999)) for s in e]]
    f['pos'] = xyz() if c['pos'] else []
    f['frc'] = xyz() if c['frc'] else []
    f['vel'] = xyz() if c['vel'] else []
    f['en'] = [[[1000 * t] + [rng.randint(1, 99999), rng.randint(1, 999999), s['e'], rng.randint(-99999, -1)] for t, s in enumerate(e)]] if c['en'] else []
    f['str'] = [m(n, 9, -99999999, 99999999)] if c['str'] and sc['cls'] != 'scf' else []
    f['cel'] = [[[rng.randint(5000, 12000), rng.randint(-2000, 2000), 0, rng.randint(-2000, 2000), rng.randint(6000, 14000), 0, rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(6000, 16000), rng.randint(1, 999999)] for t in range(n)]] if c['cel'] and sc['cls'] != 'scf' else []
    f['fo'] = [m(nat, 3, -9999, 9999) for t in range((n if sc['cls'] == 'md' else 1 if sc['cls'] == 'scf' else n + 1 + last))] if c['fo'] else []
    f['etot'] = [rng.randint(-999999, -1)] if sc['cls'] == 'scf' and rng.random() < .8 else []
    f['stress'] = [m(3, 3, -99999, 99999)] if sc['cls'] == 'scf' and c['str'] else []
    return f


def write(f, sc, rng, out):
    d = os.path.dirname(out)
    P = lambda fn: os.path.join(d, fn)
    W = lambda fn, lines: open(P(fn), 'w').write('\n'.join(lines) + '\n')
    t0 = 0 if sc['cls'] == 'md' else 1
    for fn, q in (('pos', f['pos']), ('frc', f['frc']), ('vel', f['vel'])):
        if not q: continue
        L = []
        for t, s in enumerate(q[0]):
            tt = t + t0 + (10 if sc['seed'] % 5 == 0 else 0)
            L += ['%8d' % f['nat'], ' i = %8d, %sE = %20.10f' % (tt, 'time = %12.3f, ' % (tt * .5) if sc['cls'] == 'md' else '', s['e'] / 1000.)]
            L += ['%3s' % e + ''.join('%20.10f' % (x / 1000.) for x in v) for e, v in zip(f['sym'], s['x'])]
        W('PROJECT-%s-1.xyz' % fn, L)
    if f['en']:
        W('PROJECT-1.ener', ['#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]            Pot.[a.u.]        Cons Qty[a.u.]        UsedTime[s]']
          + ['%10d%20.6f' % (r[0] // 1000, r[0] * .0005) + ''.join('%20.9f' % (x / 1000.) for x in r[1:]) + '%20.9f' % 3.25 for r in f['en'][0]])
    if f['str']:
        W('PROJECT-1.stress', ['#   Step   Time [fs]            xx [bar]            xy [bar]'] + ['%8d%12.3f' % (t + t0, t * .5) + ''.join('%20.10f' % (x / 1000.) for x in r) for t, r in enumerate(f['str'][0])])
    if f['cel']:
        W('PROJECT-1.cell', ['#   Step   Time [fs]       Ax [Angstrom]       Ay [Angstrom]'] + ['%8d%12.3f' % (t + t0, t * .5) + ''.join('%20.10f' % (x / 1000.) for x in r[:9]) + '%25.10f' % (r[9] / 1000.) for t, r in enumerate(f['cel'][0])])
    L = [' GLOBAL| Project name                                                    PROJECT', ' GLOBAL| Run type %60s' % f['rt'], ' GLOBAL| Global print level                                                  LOW']
    if f['dt']: L += [' MD| Number of Time Steps                                                     15', ' MD| Time Step [fs] %60.3f' % (f['dt'] / 1000.)]
    if f['natp']: L += ['                                                      Number of atoms: %9d' % f['nat'], '                                                      Number of kinds:         2']
    for q in range(max(len(f['fo']), len(f['etot']), 1)):
        if sc['cls'] != 'scf': L += ['', ' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):             %20.15f' % -1.5, '']
        elif q < len(f['etot']): L += ['', ' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):             %20.15f' % (f['etot'][q] / 1000.), '']
        if q < len(f['fo']):
            L += ['', ' ATOMIC FORCES in [a.u.]', '', ' # Atom   Kind   Element          X              Y              Z'] + ['%7d%7d      %-3s' % (i + 1, 1, f['sym'][i]) + '    ' + ''.join('%15.8f' % (x / 1000.) for x in v) for i, v in enumerate(f['fo'][q])]
            L += [' SUM OF ATOMIC FORCES          -0.00051016     0.00740432     0.00437477     0.00861527', '']
    for b in f['stress']:
        L += ['', ' STRESS TENSOR [GPa]', '', '            X               Y               Z'] + ['  %s ' % x + ''.join('%16.8f' % (y / 1000.) for y in v) for x, v in zip('XYZ', b)] + ['', '  1/3 Trace(stress tensor):   5.90391415E+01', '', ' EIGENVECTORS AND EIGENVALUES OF THE STRESS TENSOR', '', '        29.89435818     73.27630797     73.94675849']
    open(out, 'w').write('\n'.join(L) + '\n')


def obs(a, v, f=1.0):
    if a == 'symbols': return list(v) if v is not None else []
    return nd(None if v is None else np.asarray(v, float) / f, 1000, 0.01)


ATTRS = dict(scf=['natoms', 'etot', 'forces', 'stress', 'symbols'])
ATTRS['md'] = ATTRS['relax'] = ['cell', 'coords', 'econst', 'ekin', 'etot', 'forces', 'natoms', 'stress', 'symbols', 'temperature', 'timestep', 'velocity']
CLS = dict(scf='Cp2kSCFOutputFile', md='Cp2kMDOutputFile', relax='Cp2kRelaxOutputFile')


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    os.mkdir('d')
    evs = []
    f = make(sc, rng)
    fn = rng.choice(['d/cp2k.out', 'cp2k.out', './d/out'])
    write(f, sc, rng, fn)
    evs.append(dict(op='dir', f=f))
    cls = sc['cls']
    attrs = ATTRS[cls]
    C = getattr(parse, CLS[cls])
    for mode in ('get', 'parse', 'cont'):
        p = C(fn)
        base = dict(cls=cls)
        if mode == 'get':
            order = list(attrs) + ([] if cls == 'scf' else ['volume']); rng.shuffle(order)
            for a in order + order[:2]:
                x, v = call(getattr(p, 'get_' + a))
                evs.append(dict(base, op='get', a=a, exc=x, o=obs(a, v) if not x else []))
        elif mode == 'parse':
            x, _ = call(p.parse)
            evs.append(dict(base, op='all', via='parse', exc=x, **({'as': [dict(a=a, o=obs(a, getattr(p, a))) for a in attrs]} if not x else {})))
        else:
            fac = dict(length=1., energy=HA, forces=HA / BOHR, stress=1. if cls == 'scf' else 1e-4, time=1., velocity=BOHR / TH)
            un = {}
            for k in fac:
                if rng.random() < .2: un[k] = fac[k] = rng.choice([2., .5, 1.])
            if un: p = C(fn, units=un)
            if cls != 'scf' and not f['pos']: continue
            if rng.random() < .5:
                x, c = call(getattr(pio, 'read_cp2k_' + cls), fn, **(dict(units=un) if un else {}))
            else:
                x, c = call(p.get_struct if cls == 'scf' else p.get_traj)
            L = []
            if not x:
                dim = dict(coords='length', cell='length', etot='energy', ekin='energy', forces='forces', stress='stress', timestep='time', velocity='velocity')
                names = ['natoms', 'etot', 'stress', 'symbols', 'forces'] + ([] if cls == 'scf' else ['coords', 'cell', 'timestep'])
                if cls == 'md': names += [a for a in ('ekin', 'temperature') if f['en']] + (['velocity'] if f['vel'] else [])
                if cls != 'scf' and not f['natp'] and cls == 'md': names = [a for a in names if a not in ('natoms',)]
                for a in names:
                    L.append(dict(a=a, o=obs(a, getattr(c, a), fac.get(dim.get(a), 1.0))))
            evs.append(dict(base, op='all', via='cont', exc=x, **{'as': L}))
    return {}, evs


if __name__ == '__main__':
    main(globals())
