import os, re, copy, shlex
import numpy as np
from _base import *
from pwtools import io, crys

MASS = dict(H=1.008, He=4.0026, C=12.011, N=14.007, O=15.999, F=18.998, Na=22.990, Al=26.982, Si=28.086, P=30.974, Cl=35.453, Ar=39.948, K=39.098, Ca=40.078, Ti=47.867, Fe=55.845, Cu=63.546, Zr=91.224, Cs=132.905, Au=196.967)
ELS = sorted(MASS)
EV_HA = 0.0367493  # eV in Ha


def from_mc(x):
    if PROP == 'C41': return []
    return dict(x, kind='write', seed=len(x['sym']) * 7 + x['n'])


def gen(rng, tier):
    out = []
    for i in range(0 if PROP == 'C41' else 110 if tier == 'quick' else 900):
        els = rng.sample(ELS, rng.randint(1, 5))
        out.append(dict(kind='write', sym=[rng.choice(els) for k in range(rng.randint(1, 9))], n=rng.randint(1, 4), fo=rng.random() < .5, seed=rng.randrange(10**6)))
    for i in range(0 if PROP == 'C22' else 150 if tier == 'quick' else 900):
        out.append(dict(kind=rng.choice(['cif', 'pdb']), seed=rng.randrange(10**6)))
    return out


class Tab:
    def __init__(self): self.v = []
    def add(self, a):
        """array -> nested list of tokens (existing values reused)"""
        return np.array([self.tok(x, True) for x in np.asarray(a, float).ravel()], int).reshape(np.shape(a)).tolist()
    def tok(self, x, new=False, tol=1e-12):
        x = float(x)
        if abs(x) <= 1e-13: return 0
        if self.v:
            dist = np.abs(np.array(self.v) - x); i = int(dist.argmin())
            if dist[i] <= tol * max(1., abs(x)): return i + 1
        if new:
            self.v.append(x); return len(self.v)
        return -1
    def enc(self, a, tol=1e-12):
        return np.array([self.tok(x, False, tol) for x in np.asarray(a, float).ravel()], int).reshape(np.shape(a)).tolist()


def cellcc(c):
    l = [float(np.sqrt((v ** 2).sum())) for v in c]
    ang = lambda u, v: float(np.degrees(np.arccos(np.dot(u, v) / np.sqrt((u ** 2).sum() * (v ** 2).sum()))))
    return l + [ang(c[1], c[2]), ang(c[0], c[2]), ang(c[0], c[1])]


def rot(rng):
    q = np.array([rng.gauss(0, 1) for k in range(4)]); q /= np.sqrt((q ** 2).sum()); w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def parse_xyz(txt, tab):
    L = txt.splitlines(); out = []; k = 0
    while k < len(L):
        if not L[k].strip() and not ''.join(L[k:]).strip(): break
        n = int(L[k]); name = L[k + 1]
        at = [l.split() for l in L[k + 2:k + 2 + n]]
        if len(at) != n or any(len(a) != 4 for a in at): raise ValueError('xyz')
        m = re.match(r'(.*)\.(\d+)$', name)
        out.append(dict(n=n, name=m.group(1) if m and int(m.group(2)) == len(out) + 1 else '?' + name, atoms=[dict(sym=a[0], x=tab.enc([float(y) for y in a[1:]])) for a in at]))
        k += 2 + n
    return out


def parse_axsf(txt, tab):
    L = [l for l in txt.splitlines() if l.strip()]
    h = L[0].split(); assert h[0] == 'ANIMSTEPS' and L[1].strip() == 'CRYSTAL'
    out = dict(steps=int(h[1]), frames=[]); k = 2
    while k < len(L):
        a = L[k].split(); assert a[0] == 'PRIMVEC'
        cell = [[float(x) for x in l.split()] for l in L[k + 1:k + 4]]
        b = L[k + 4].split(); assert b[0] == 'PRIMCOORD'
        n, one = L[k + 5].split(); n = int(n); assert one == '1'
        at = []
        for l in L[k + 6:k + 6 + n]:
            f = l.split(); assert len(f) in (4, 7)
            v = [float(x) for x in f[1:]]
            at.append(dict(sym=f[0], x=tab.enc(v[:3]), f=tab.enc([x / EV_HA for x in v[3:]], 1e-6)))
        assert len(at) == n
        out['frames'].append(dict(idx=int(a[1]), cidx=int(b[1]), cell=tab.enc(cell), n=n, atoms=at))
        k += 6 + n
    return out


def parse_sgroup(txt, tab):
    L = [l.split('/')[0].strip() for l in txt.splitlines()]; L = [l for l in L if l]
    n = int(L[2]); at = []
    rest = L[3:]; assert len(rest) == 2 * n
    for i in range(n):
        at.append(dict(sym=rest[2 * i + 1], x=tab.enc([float(x) for x in rest[2 * i].split()])))
    return dict(lat=L[0], cc=tab.enc([float(x) for x in L[1].split()]), n=n, atoms=at)


def parse_cif(txt, tab):
    toks = []
    for l in txt.splitlines():
        l = l.split('#')[0] if not l.strip().startswith("'") else l
        toks += shlex.split(l)
    d = {}; k = 0; blocks = 0
    while k < len(toks):
        t = toks[k]
        if t.lower().startswith('data_'): blocks += 1; k += 1
        elif t.lower() == 'loop_':
            k += 1; names = []
            while toks[k].startswith('_'): names.append(toks[k]); k += 1
            vals = []
            while k < len(toks) and not (toks[k].startswith('_') or toks[k].lower() in ('loop_',) or toks[k].lower().startswith('data_')): vals.append(toks[k]); k += 1
            assert len(vals) % len(names) == 0
            for q, nm in enumerate(names): d[nm.lower()] = vals[q::len(names)]
        else:
            d[t.lower()] = toks[k + 1]; k += 2
    assert blocks == 1
    cc = [d['_cell_' + x] for x in ('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma')]
    cols = [d['_atom_site_' + x] for x in ('label', 'type_symbol', 'fract_x', 'fract_y', 'fract_z')]
    return dict(cc=tab.enc([float(x) for x in cc]), sg=d['_symmetry_space_group_name_h-m'], num=d['_symmetry_int_tables_number'], ops=d['_symmetry_equiv_pos_as_xyz'],
                atoms=[dict(label=a, sym=b, x=tab.enc([float(x), float(y), float(z)])) for a, b, x, y, z in zip(*cols)])


def parse_lmp(txt, symtxt):
    L = txt.splitlines()[1:]; out = dict(n=-1, ntypes=-1, lo=[9] * 3, hi=[9] * 3, tilt=[0, 0, 0], atoms=[], masses=[], symfile=symtxt.split('\n'))
    sec = None
    g = lambda x, s=1: snap(float(x), s, 1e-7)
    for l in L:
        f = l.split('#')[0].split()
        if not f: continue
        if f == ['Atoms']: sec = 'A'
        elif f == ['Masses']: sec = 'M'
        elif sec == 'A': assert len(f) == 5; out['atoms'].append(dict(id=int(f[0]), type=int(f[1]), x=[g(x, 8) for x in f[2:]]))
        elif sec == 'M':
            m = float(f[1]); c = [e for e in ELS if abs(MASS[e] - m) < 0.02]
            out['masses'].append(dict(id=int(f[0]), m=c[0] if len(c) == 1 else '?')); assert len(f) == 2
        elif f[1:] == ['atoms']: out['n'] = int(f[0])
        elif f[1:] == ['atom', 'types']: out['ntypes'] = int(f[0])
        elif f[2:] in (['xlo', 'xhi'], ['ylo', 'yhi'], ['zlo', 'zhi']):
            q = 'xyz'.index(f[2][0]); out['lo'][q], out['hi'][q] = g(f[0]), g(f[1])
        elif f[3:] == ['xy', 'xz', 'yz']: out['tilt'] = [g(x) for x in f[:3]]
        else: raise ValueError(l)
    return out


def rand_struct(rng, sym, n, fo, tab):
    """-> object, description"""
    nat = len(sym)
    T = [[rng.randint(3, 9), 0, 0], [rng.randint(-3, 3), rng.randint(3, 9), 0], [rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(3, 9)]]
    if rng.random() < .3: T = [[T[0][0], 0, 0], [0, T[1][1], 0], [0, 0, T[2][2]]]
    f8 = [[rng.randint(-4, 12) for k in range(3)] for i in range(nat)]
    R = rot(rng) if rng.random() < .5 else np.identity(3)
    cell = [np.dot(np.array(T, float), R)]; frac = [np.array(f8) / 8.]
    varcell = rng.random() < .7
    for t in range(1, n):
        cell.append(cell[0] + np.array([[rng.uniform(-.3, .3) for k in range(3)] for j in range(3)]) if varcell else cell[0].copy())
        frac.append(np.array([[rng.uniform(-1, 2) for k in range(3)] for i in range(nat)]))
    coords = [np.dot(f, c) for f, c in zip(frac, cell)]
    forces = [np.array([[rng.choice([0., rng.uniform(-5, 5), rng.uniform(-1, 1) * 1e-3]) for k in range(3)] for i in range(nat)]) for t in range(n)] if fo else None
    cc = [np.array(cellcc(c)) for c in cell]
    kw = dict(symbols=list(sym))
    how = rng.choice(['cell,frac', 'cell,coords', 'both'])
    one = n == 1 and rng.random() < .7
    S = (lambda a: a[0]) if one else np.array
    kw['cell'] = S(cell)
    if how != 'cell,coords': kw['coords_frac'] = S(frac)
    if how != 'cell,frac': kw['coords'] = S(coords)
    if fo: kw['forces'] = S(forces)
    obj = (crys.Structure if one else crys.Trajectory)(**kw)
    d = dict(sym=list(sym), n=n, cell=[tab.add(c) for c in cell], cc=[tab.add(c) for c in cc], frac=[tab.add(c) for c in frac], coords=[tab.add(c) for c in coords],
             forces=[tab.add(c) for c in forces] if fo else [], tri=T, f8=f8)
    return obj, d


def state(o):
    return [(k, copy.deepcopy(getattr(o, k))) for k in o.attr_lst]


def same(a, b):
    for (k, x), (q, y) in zip(a, b):
        if type(x) != type(y): return False
        if isinstance(x, np.ndarray):
            if not (x.shape == y.shape and (x == y).all()): return False
        elif x != y: return False
    return True


def attempt(fn, *a):
    try: return fn(*a)
    except Timeout: raise
    except Exception as e: return None


def run_write(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    evs, allsym, paths = [], set(), []
    for rep in range(3):
        sym = list(sc['sym']) if rep == 0 else [rng.choice(sc['sym'] + [rng.choice(ELS)]) for k in range(rng.randint(1, 5))]
        n = sc['n'] if rep == 0 else rng.randint(1, 3)
        allsym |= set(sym)
        # one table for the trace, so that read-backs of earlier files are comparable
        if rep == 0: tab = Tab()
        obj, d = rand_struct(rng, sym, n, sc['fo'] if rep == 0 else rng.random() < .5, tab)
        one = obj if not isinstance(obj, crys.Trajectory) else obj[0]
        kinds = ['xyz', 'axsf', 'sgroup', 'cif', 'lammps']; rng.shuffle(kinds)
        for kind in kinds[:rng.randint(3, 5)]:
            path = rng.choice(['', 'sub/']) + kind + rng.choice(['1', '2'])
            if '/' in path: os.makedirs('sub', exist_ok=True)
            ev = dict(op='write', kind=kind, path=path, s=d)
            arg = obj if kind in ('xyz', 'axsf') else one
            pre = state(arg)
            kw = {}
            if kind == 'xyz':
                ev['name'] = rng.choice(['pwtools_dummy_mol_name', 'mol', 'a b'])
                if ev['name'][0] != 'p': kw['name'] = ev['name']
                fn = io.write_xyz
            elif kind == 'axsf': fn = io.write_axsf
            elif kind == 'sgroup':
                ev['lat'] = rng.choice('PFICA')
                if ev['lat'] != 'P' or rng.random() < .5: kw['lat_symbol'] = ev['lat']
                fn = io.write_wien_sgroup
            elif kind == 'cif': fn = io.write_cif
            else:
                sb = 'lmp.struct.symbols'
                if rng.random() < .5: sb = kw['symbolsbasename'] = 'syms'
                fn = io.write_lammps
            ev['exc'], _ = call(fn, path, arg, **kw)
            ev['same'] = same(pre, state(arg))
            txt = open(path).read() if os.path.exists(path) else ''
            if kind == 'lammps':
                sf = os.path.join(os.path.dirname(path), sb)
                ev['file'] = attempt(parse_lmp, txt, open(sf).read() if os.path.exists(sf) else '<none>')
            else: ev['file'] = attempt(globals()['parse_' + kind], txt, tab)
            ev['readable'] = ev['file'] is not None
            if kind == 'cif' and ev['readable'] and not isinstance(ev['file']['ops'], list): ev['file']['ops'] = [ev['file']['ops']]
            evs.append(ev)
            if kind == 'cif' and path not in paths: paths.append(path)
        for path in paths:
            if rng.random() < .7:
                x, st = call(io.read_cif, path)
                ev = dict(op='readback', path=path, exc=x)
                if st is not None:
                    ev.update(sym=list(st.symbols), cc=tab.enc(st.cryst_const, 1e-9), frac=tab.enc(st.coords_frac, 1e-9), tri=[[snap(v, 1, 1e-6) for v in r] for r in st.cell], x8=[[snap(v, 8, 1e-5) for v in r] for r in st.coords])
                evs.append(ev)
    return dict(order=sorted(allsym)), evs


def paren(rng, s):
    return s + '(%i)' % rng.randint(1, 99) if rng.random() < .3 else s


def run_read(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    tab = Tab(); evs = []
    val = lambda lo, hi, nd: rng.choice(['%.' + str(nd) + 'f'] * 3 + ['%.4e']) % rng.uniform(lo, hi)
    for rep in range(3):
        if sc['kind'] == 'cif':
            blocks = []; txt = ''
            names = rng.sample(['foo', 'Bar', 'pwtools', 'x_1'], rng.randint(1, 3))
            for nm in names:
                cc = [val(2, 19, 4) for k in range(3)] + [val(60, 119, 3) for k in range(3)]
                cart = rng.random() < .3; tcol = rng.random() < .6
                atoms = []
                for i in range(rng.randint(1, 6)):
                    el = rng.choice(ELS)
                    atoms.append((el, el + rng.choice(['', '1', '23', '2+', '3-']), [val(-1, 2, 5) for k in range(3)]))
                txt += 'data_' + nm + '\n'
                tags = list(zip(['_cell_length_a', '_cell_length_b', '_cell_length_c', '_cell_angle_alpha', '_cell_angle_beta', '_cell_angle_gamma'], cc)); rng.shuffle(tags)
                for t, v in tags: txt += t + ' ' + paren(rng, v) + '\n'
                ax = ['_atom_site_Cartn_' if cart else '_atom_site_fract_'] * 3
                cols = [('_atom_site_label', 0)] + ([('_atom_site_type_symbol', 1)] if tcol else []) + [(ax[0] + 'x', 2), (ax[0] + 'y', 3), (ax[0] + 'z', 4), ('_atom_site_occupancy', 5)]
                rng.shuffle(cols)
                txt += 'loop_\n' + ''.join(c + '\n' for c, _ in cols)
                for el, lab, x in atoms:
                    row = [rng.choice([lab, lab, 'X%d' % len(lab), 'OW1', 'HN']) if tcol else lab, rng.choice([el, el + '3+']) if tcol else ''] + [paren(rng, v) for v in x] + ['1.0']
                    txt += ' '.join(row[q] for _, q in cols) + '\n'
                txt += '\n'
                blocks.append(dict(name=nm, cc=tab.add([float(x) for x in cc]), cart=cart, atoms=[dict(el=e, x=tab.add([float(v) for v in x])) for e, l, x in atoms]))
            open('x.cif', 'w').write(txt)
            block = rng.choice(['', rng.choice(names)])
            from pwtools import parse
            x, p = call(parse.CifFile, 'x.cif', *( [block] if block else []))
            ev = dict(op='cif', f=blocks, block=block, exc=x)
            if p is not None:
                ev['exc'], _ = call(p.parse)
                if ev['exc'] == '':
                    ev.update(sym=list(p.symbols), cc=tab.enc(p.cryst_const), frac=tab.enc(p.coords_frac) if p.coords_frac is not None else [], coords=tab.enc(p.coords) if p.coords is not None else [])
            evs.append(ev)
        else:
            txt = 'HEADER    test\nREMARK   4 foo\n'
            cc = []
            if rng.random() < .7:
                c = [rng.uniform(5, 90) for k in range(3)] + [rng.uniform(60, 119) for k in range(3)]
                txt += 'CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 21 21 21   8\n' % tuple(c)
                cc = tab.add([float('%.3f' % x) for x in c[:3]] + [float('%.2f' % x) for x in c[3:]])
            atoms = []
            for i in range(rng.randint(1, 7)):
                el = rng.choice(ELS); x = [rng.uniform(-99, 99) for k in range(3)]
                if rng.random() < .5: nm = el.upper()
                else: nm = el
                txt += '%-6s%5d  %-3s%s%-3s %s%4d    %8.3f%8.3f%8.3f%6.2f%6.2f\n' % (rng.choice(['ATOM', 'HETATM']), i + 1, nm, ' ', rng.choice(['ALA', 'MOL', 'A', '']), rng.choice('AB '), rng.randint(1, 99), x[0], x[1], x[2], 1., rng.uniform(0, 40))
                atoms.append(dict(el=el, x=tab.add([float('%.3f' % v) for v in x])))
            txt += rng.choice(['END\n', 'TER\nEND\n', ''])
            open('x.pdb', 'w').write(txt)
            from pwtools import parse
            x, p = call(parse.PDBFile, 'x.pdb')
            ev = dict(op='pdb', f=dict(cc=cc, atoms=atoms), exc=x)
            if p is not None:
                ev['exc'], _ = call(p.parse)
                if ev['exc'] == '': ev.update(sym=list(p.symbols), cc=tab.enc(p.cryst_const) if p.cryst_const is not None else [], coords=tab.enc(p.coords))
            evs.append(ev)
    return dict(order=['H']), evs


def run(sc, work):
    return run_write(sc, work) if sc['kind'] == 'write' else run_read(sc, work)


if __name__ == '__main__':
    main(globals())
