import numpy as np
from _base import *
from pwtools import io as pio
from pwtools import parse

WORKERS = 8
BOHR = 0.52917720859           # Ang
HA = 27.21138386               # eV
TH = 2.418884326505e-2         # fs
KB = 1.3806504e-23 / 4.35974394e-18   # Ha / K
ELS = ['H', 'Al', 'N', 'Si', 'O']


def from_mc(x):
    h = sum((i + 1) * m for i, m in enumerate(x['marks'])) + 7 * x['c']['nat'] + x['c']['ncol'] + 3 * x['c']['every'] + 5 * x['c']['ftr'] + x['c']['cel'] * 11
    if TIER == 'quick' and h % 17: return []
    return dict(c=x['c'], marks=x['marks'], steps=(len(x['marks']) - sum(x['marks'])) // x['c']['nat'], seed=h, kind='md')


def gen(rng, tier):
    out = []
    B = lambda p=.5: rng.random() < p
    for i in range(40 if tier == 'quick' else 500):
        c = dict(nat=rng.choice([1, 1, 2, 3, 7, 11]), ncol=rng.choice([9, 8, 6]), ftr=B(), tr=B(), cel=B(), every=rng.choice([0, 1, 1, 3]), scale=B(.8), en=B(.8))
        out.append(dict(c=c, steps=rng.choice([1, 1, 2, 3, 9, 12]), marks=[], seed=rng.randrange(10**6), kind=rng.choice(['md', 'md', 'scf'])))
    return out


def num(v, d=3, w=0):
    return ('%%%d.%df' % (w, d)) % (v / 1000.)


def make(sc, rng):
    c, n, nat = sc['c'], sc['steps'], sc['c']['nat']
    m = lambda r, k, lo, hi: [[rng.randint(lo, hi) for j in range(k)] for i in range(r)]
    B = lambda p=.5: rng.random() < p
    f = dict(nat=nat, sym=[rng.choice(ELS) for i in range(nat)], geom=True)
    cell = lambda: [[rng.randint(5000, 12000), rng.randint(-2000, 2000), 0], [rng.randint(-2000, 2000), rng.randint(6000, 14000), 0], [rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(6000, 16000)]]
    f['scale'] = [dict(cell=cell(), frac=m(nat, 3, -300, 1300))] if c['scale'] else []
    rows = m(n * nat, 9, -99999, 99999)
    marks = sc['marks'] or []
    lines = []
    if marks:
        it = iter(rows)
        for k in marks: lines.append([] if k else next(it))
    else:
        for i, r in enumerate(rows):
            if i % nat == 0 and B(.15): lines.append([])
            lines.append(r)
    md = sc['kind'] == 'md'
    f['ftr'] = [lines] if c['ftr'] and md else []
    f['tr'] = [[l[:6] for l in lines]] if c['tr'] and md else []
    f['en'] = [[[1000 * (t + 1)] + [rng.randint(0, 99999) for k in range(c['ncol'] - 1)] for t in range(n)]] if c['en'] and md else []
    f['cel'] = [[cell() for t in range(n)]] if c['cel'] and md else []
    f['str'] = [[m(3, 3, -99999, 99999) for t in range(0, n, c['every'])]] if c['every'] and md else []
    f['out'] = dict(dt=rng.choice([0, rng.randint(100, 20000)]) if md else 0, nk=0 if md or B(.3) else rng.randint(1, 120), it=0 if md or B(.2) else rng.randint(1, 130), conv=md or B(.7),
                    etot=[rng.randint(-999999, -1) for i in range(rng.randint(0, 3))], stress=[m(3, 3, -99999, 99999) for i in range(rng.randint(0, 2))] if not md else [],
                    cf=[[[rng.randint(-9000, 99000) for k in range(3)] + [rng.randint(-900, 900) for k in range(3)] for i in range(nat)] for q in range(rng.randint(0, 2))])
    return f


def write(f, sc, rng, out):
    nat = f['nat']
    d = os.path.dirname(out)
    P = lambda fn: os.path.join(d, fn)
    for fn in ('GEOMETRY', 'GEOMETRY.scale', 'TRAJECTORY', 'FTRAJECTORY', 'ENERGIES', 'CELL', 'STRESS'):
        if os.path.exists(P(fn)): os.remove(P(fn))
    W = lambda fn, lines: open(P(fn), 'w').write('\n'.join(lines) + '\n')
    L = [''.join('%20.12f' % rng.uniform(-9, 9) for k in range(3)) + '     ' + ''.join('%20.12f' % rng.uniform(-1, 1) for k in range(3)) for i in range(nat)]
    if f['cel'] or rng.random() < .3:
        L += ['   5.68791786313043      -2.912948952555564E-002 -1.244515273364714E-002', ' -2.677851614307193E-003 -5.847140523631821E-004 -2.856430844717665E-004', ' -2.092765730848838E-002 -1.669687361794532E-003   9.56882059995098     ']
    W('GEOMETRY', L)
    if f['scale']:
        s = f['scale'][0]
        L = ['CELL MATRIX (BOHR)'] + [' ' + ''.join(num(x, 12, 20) for x in v) for v in s['cell']] + ['', 'CELL MATRIX (ANGSTROM)'] + [' ' + ''.join('%20.12f' % (x / 1000. * .529177) for x in v) for v in s['cell']]
        cnt = {}
        L += ['', 'SCALED ATOMIC COORDINATES']
        for e, v in zip(f['sym'], s['frac']):
            cnt[e] = cnt.get(e, 0) + 1
            L.append(' ' + ''.join(num(x, 12, 20) for x in v) + '%11s%7d' % (e, cnt[e]))
        W('GEOMETRY.scale', L)
    for fn, q in (('TRAJECTORY', f['tr']), ('FTRAJECTORY', f['ftr'])):
        if q:
            L, k = [], 0
            for l in q[0]:
                if l == []: L.append('  <<<<<<  NEW DATA  >>>>>>'); continue
                L.append('%7d' % (k // nat + 1) + ''.join(num(x, 14, 23) for x in l)); k += 1
            W(fn, L)
    if f['en']:
        W('ENERGIES', ['%10d' % (r[0] // 1000) + ''.join(num(x, rng.choice([3, 6, 8]), 16) for x in r[1:-2]) + ' %.6E' % (r[-2] / 1000.) + '%9.3f' % (r[-1] / 1000.) for r in f['en'][0]])
    if f['cel']:
        L = []
        for t, b in enumerate(f['cel'][0]):
            L.append('   CELL PARAMETERS at Step:%12d' % (t + 1))
            ex = rng.random() < 2
            for v in b: L.append(''.join(num(x, 6, 15) for x in v) + '   ' + ''.join('%13.6f' % rng.uniform(-1, 1) for k in range(3)))
        W('CELL', L)
    if f['str']:
        L = []
        for t, b in enumerate(f['str'][0]):
            L.append('   TOTAL STRESS TENSOR (kB): Step:%12d' % (t * sc['c']['every'] + 1))
            for v in b: L.append(''.join(num(x, 8, 21) for x in v))
        W('STRESS', L)
    o = f['out']
    L = [' ***       CPMD  3.15.1', ' MAXIMUM NUMBER OF STEPS:                                50 STEPS']
    if o['dt']: L += [' TIME STEP FOR ELECTRONS:                                  7.7700', ' TIME STEP FOR IONS:                                %s' % num(o['dt'], 4, 12)]
    if o['nk']:
        L += ['    MAXIMAL NUMBER OF K POINTS                                  4', ' NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES): %9d' % o['nk'], '    NKP      KX             KY             KZ            WEIGHT', '     1       0.250000       0.433013       0.000000      0.500000']
    for e in o['etot']:
        L += ['', ' (K+E1+L+N+X)           TOTAL ENERGY = %19.8f A.U.' % (e / 1000.), ' (K)                  KINETIC ENERGY =            7.97763674 A.U.']
    for q in o['cf']:
        L += ['', '   ATOM          COORDINATES            GRADIENTS (-FORCES)']
        for i, v in enumerate(q): L.append('%4d %2s' % (i + 1, f['sym'][i]) + ''.join('%8.4f' % (x / 1000.) for x in v[:3]) + ' ' + ''.join('%11.3E' % (x / 1000.) for x in v[3:]))
        L += ['', ' ****************']
    for i in range(3): L.append('  %2d  8.537E-08   8.887E-10    -192.769552   -1.023E-12      2.12' % (i + 1))
    if o['it']: L += ['%4d  8.537E-08   8.887E-10    -192.769552   -1.023E-12      2.12' % o['it'], '', ' RESTART INFORMATION WRITTEN ON FILE                  ./RESTART.1']
    if not o['conv']: L.append(' BUT NO CONVERGENCE ACHIEVED')
    for b in o['stress']:
        L += ['', ' TOTAL STRESS TENSOR (kBar):'] + [' ' + ''.join('%20.8E' % (x / 1000.) for x in v) for v in b]
    L += ['     STRESS                1             0.27                0.28']
    open(out, 'w').write('\n'.join(L) + '\n')


def obs(a, v, f=1.0):
    if a == 'symbols': return list(v) if v is not None else []
    if a == 'scf_converged': return dict(s=[], d=[1000 * int(bool(v))])
    if a == 'temperature_cell': f = 2 / 9. / KB
    return nd(None if v is None else np.asarray(v, float) / f, 1000, 0.01)


SCF = ['cell', 'stress', 'etot', 'coords_frac', 'symbols', 'forces', 'natoms', 'nkpoints', 'nstep_scf', 'scf_converged']
MD = ['cell', 'coords', 'econst', 'ekin', 'ekin_cell', 'ekin_elec', 'etot', 'forces', 'natoms', 'stress', 'symbols', 'temperature', 'temperature_cell', 'timestep', 'velocity']


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    os.mkdir('d')
    evs = []
    f = make(sc, rng)
    fn = rng.choice(['d/cpmd.out', 'cpmd.bo.out', './d/out'])
    write(f, sc, rng, fn)
    evs.append(dict(op='dir', f=f))
    cls = sc['kind']
    attrs = SCF if cls == 'scf' else MD
    C = parse.CpmdSCFOutputFile if cls == 'scf' else parse.CpmdMDOutputFile
    for mode in ('get', 'parse', 'cont'):
        p = C(fn)
        base = dict(cls=cls)
        if mode == 'get':
            order = list(attrs); rng.shuffle(order)
            for a in order + order[:2]:
                x, v = call(getattr(p, 'get_' + a))
                evs.append(dict(base, op='get', a=a, exc=x, o=obs(a, v) if not x else []))
        elif mode == 'parse':
            x, _ = call(p.parse)
            evs.append(dict(base, op='all', via='parse', exc=x, **({'as': [dict(a=a, o=obs(a, getattr(p, a))) for a in attrs]} if not x else {})))
        else:
            fac = dict(length=BOHR, energy=HA, forces=HA / BOHR, stress=.1, time=TH, velocity=BOHR / TH)
            un = {}
            for k in fac:
                if rng.random() < .2: un[k] = fac[k] = rng.choice([2., .5, 1.])
            if un: p = C(fn, units=un)
            L = []
            # quantities with their own print interval and no trajectory file: no container
            if cls == 'md' and not (f['tr'] or f['ftr']): continue
            if cls == 'md' and f['str'] and sc['c']['every'] > 1: continue
            if rng.random() < .5:
                x, c = call(getattr(pio, 'read_cpmd_' + cls), fn, **(dict(units=un) if un else {}))
            else:
                x, c = call(p.get_struct if cls == 'scf' else p.get_traj)
            if not x:
                dim = dict(coords='length', cell='length', etot='energy', ekin='energy', econst='energy', forces='forces', stress='stress', timestep='time', velocity='velocity')
                names = ['natoms', 'etot', 'stress', 'symbols'] + (['coords_frac', 'forces', 'cell'] if cls == 'scf' else ['coords', 'velocity', 'timestep', 'forces'] + (['ekin', 'temperature'] if f['en'] else []))
                for a in names:
                    L.append(dict(a=a, o=obs(a, getattr(c, a), fac.get(dim.get(a), 1.0))))
                if cls == 'md':
                    v = c.cell
                    if v is not None and not f['cel'] and v.ndim == 3 and v.shape[0] == sc['steps'] and (v == v[0]).all(): v = v[0]
                    L.append(dict(a='cell', o=obs('cell', v, fac['length'])))
            evs.append(dict(base, op='all', via='cont', exc=x, **{'as': L}))
    return {}, evs


if __name__ == '__main__':
    main(globals())
