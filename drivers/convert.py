"""bin/cif2any.py, cif2sgroup.py, pdb2cif.py, matdyn2fqha.py, plot_dispersion.py on written files (C47)."""
import contextlib, io as sio, json, re, runpy, subprocess, sys
import numpy as np
from _base import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt

BIN = os.environ['PWV_BIN']
SYMS = ['Al', 'H', 'N', 'O', 'Si', 'Zr']
ANGS = [[90, 90, 90], [90, 90, 120], [90, 90, 60], [60, 60, 60], [90, 60, 90], [120, 90, 90], [60, 90, 90]]


def from_mc(x):
    return dict(st=x['st'], tools=x['tools'], seed=sum(map(ord, repr(x))))


def gen(rng, tier):
    res = []
    for k in range(150 if tier == 'quick' else 1500):
        t = [rng.choice(['any', 'sgroup', 'any', 'fqha', 'dispersion', 'usage']) for i in range(rng.randint(1, 3))]
        if rng.random() < .5: t.insert(rng.choice([0, 0, 1]), 'pdb2cif')
        if k % 10 == 0 and k < 400: t = [x for x in t if x == 'pdb2cif'] + ['solvate'] + [x for x in t if x != 'pdb2cif']
        n = rng.choice([1, 2, 3, 5, 8, 14])
        res.append(dict(st=dict(len=[rng.randint(9, 40) for i in range(3)], ang=rng.choice(ANGS), atoms=[dict(sym=rng.choice(SYMS), pos=[rng.randint(0, 19) for j in range(3)]) for i in range(n)]),
                        tools=t, seed=rng.randrange(10**6)))
    return res


def tool(name, *args):
    out, err, old = sio.StringIO(), sio.StringIO(), sys.argv
    sys.argv = [os.path.join(BIN, name)] + [str(a) for a in args]
    x = ''
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(sys.argv[0], run_name='__main__')
    except SystemExit as e:
        if e.code: x = 'exit'
    except Exception as e:
        x = type(e).__name__
    finally:
        sys.argv = old
    return x, out.getvalue()


def cellmat(st):
    a, b, c = [l / 4. for l in st['len']]
    ca, cb, cg = [{60: .5, 90: 0., 120: -.5}[v] for v in st['ang']]
    sg = (1 - cg**2)**.5
    cx, cy = c * cb, c * (ca - cb * cg) / sg
    return np.array([[a, 0, 0], [b * cg, b * sg, 0], [cx, cy, (c * c - cx * cx - cy * cy)**.5]])


def write_cif(fn, st, rng):
    cols = ['label', 'x', 'y', 'z']
    if rng.random() < .4: rng.shuffle(cols)
    num = rng.random() < .5
    L = ['data_x'] + ['_cell_length_%s %.10g' % (c, l / 4.) for c, l in zip('abc', st['len'])] + ['_cell_angle_%s %s' % (c, v) for c, v in zip(['alpha', 'beta', 'gamma'], st['ang'])]
    L += ['loop_'] + ['_atom_site_label' if c == 'label' else '_atom_site_fract_' + c for c in cols]
    for i, a in enumerate(st['atoms']):
        d = dict(label=a['sym'] + (str(i + 1) if num else ''), x='%.8f' % (a['pos'][0] / 20.), y='%.8f' % (a['pos'][1] / 20.), z='%.8f' % (a['pos'][2] / 20.))
        L.append(' '.join(d[c] for c in cols))
    open(fn, 'w').write('\n'.join(L) + '\n')


def write_pdb(fn, st):
    m = cellmat(st)
    L = ['CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1' % tuple([l / 4. for l in st['len']] + st['ang'])]
    for i, a in enumerate(st['atoms']):
        L.append('ATOM  %5d %-4s SOL  %4d    %8.3f%8.3f%8.3f  1.00  0.00' % ((i + 1, ' ' + a['sym'], 1) + tuple(np.dot(np.array(a['pos']) / 20., m))))
    open(fn, 'w').write('\n'.join(L) + '\nEND\n')


def sc(v, s): return [int(round(float(x) * s)) if abs(float(x)) * s < 2e9 else INEXACT for x in v]
def atom(sym, pos): return dict(sym=sym, pos=sc(pos, 1000))


def read_cif(fn):
    cc, cols, atoms = {}, [], []
    for l in open(fn):
        t = l.split()
        if not t: continue
        if t[0].startswith('_cell_'): cc[t[0]] = float(t[1])
        elif t[0].startswith('_atom_site_'): cols.append(t[0][11:])
        elif cols and len(t) == len(cols):
            d = dict(zip(cols, t))
            atoms.append(atom(re.match('[A-Za-z]+', d.get('label', d.get('type_symbol')))[0], [d['fract_' + c] for c in 'xyz']))
    return dict(len=sc([cc['_cell_length_' + c] for c in 'abc'], 1e4), ang=sc([cc['_cell_angle_' + c] for c in ('alpha', 'beta', 'gamma')], 100), atoms=atoms)


def read_any(txt):
    parts = re.split(r'\n-{40,}\n(.*)\n-{40,}\n', '\n' + txt)
    S = {parts[i].strip(): parts[i + 1] for i in range(1, len(parts) - 1, 2)}
    F = lambda s: [float(x) for x in s.split()]
    def mat(s, head):
        b = s[s.index(head) + len(head):].strip('\n').split('\n')[:3]
        return np.array([F(l) for l in b])
    gram = lambda m: [sc(r, 1e4) for r in np.dot(m, m.T)]
    def rows(lines):
        return [l.split() for l in lines if l.strip()]
    p = S['PWSCF']
    al, an, bo = [mat(p, 'CELL_PARAMETERS ' + u) for u in ('alat', 'angstrom', 'bohr')]
    spec = p[p.index('ATOMIC_SPECIES') + 14:p.index('ATOMIC_POSITIONS')]
    pos = p[p.index('ATOMIC_POSITIONS crystal') + 24:]
    pw = dict(celldm=sc([re.search(r'celldm\(%d\) *= *(\S+)' % i, p)[1] for i in range(1, 7)], 1e4), nat=[int(x) for x in re.findall(r'\bnat *= *(\d+)', p)], ntyp=[int(x) for x in re.findall(r'\bntyp *= *(\d+)', p)],
              alat=gram(al), angstrom=gram(an), bohr=gram(bo), right=bool(min(np.linalg.det(x) for x in (al, an, bo)) > 0),
              species=[dict(sym=r[0], m=sc([r[1]], 1e4)[0], file=r[2]) for r in rows(spec.split('\n'))], atoms=[atom(r[0], r[1:4]) for r in rows(pos.split('\n'))])
    a = S['ABINIT']
    one = lambda k: re.search(r'^%s (.*)$' % k, a, re.M)[1].split()
    xred, ps = a[a.index('xred') + 4:].split('pseudopotential order:')
    ab = dict(natom=int(one('natom')[0]), ntypat=int(one('ntypat')[0]), typat=[int(x) for x in one('typat')], znucl=[int(x) for x in one('znucl')], acell=sc(one('acell'), 1e4), angdeg=sc(one('angdeg'), 100),
              xred=[dict(pos=sc(r, 1000)) for r in rows(xred.split('\n'))], pseudo=[[r[0], int(r[1])] for r in rows(ps.split('\n'))])
    c = S['CPMD']
    cell = F(c[c.index('CELL ABSOLUTE DEGREE') + 20:c.index('&END')])
    groups = []
    for l in rows(c[c.index('&ATOMS') + 6:].split('\n')):
        if l[0].startswith('*'): groups.append(dict(sym=l[0][1:].split('.')[0], n=-1, atoms=[]))
        elif len(l) == 1 and l[0].isdigit(): groups[-1]['n'] = int(l[0])
        elif len(l) == 3: groups[-1]['atoms'].append(dict(pos=sc(l, 1000)))
    k = S['CP2K']
    co = k[k.index('scaled t') + 8:k.index('&end coord')]
    cp2k = dict(len=sc(re.search(r'\babc (.*)', k)[1].split(), 1e4), ang=sc(re.search(r'alpha_beta_gamma (.*)', k)[1].split(), 100), atoms=[atom(r[0], r[1:4]) for r in rows(co.split('\n'))], kinds=re.findall(r'&kind (\S+)', k))
    g = S['general crystal information']
    rb, ra = mat(g, '[1/Bohr]:'), mat(g, '[1/Ang]:')
    prod = lambda m, r: [sc(x, 1000) for x in np.dot(m, r.T) / 2 / np.pi]
    gen = dict(bohr=prod(bo, rb), angstrom=prod(an, ra), norms=sc(np.sqrt((ra**2).sum(axis=1)), 1e4), rrel=sc(F(re.search(r'a:b:c\)\n(.*)', g)[1]), 1e4),
               grids=[dict(h=sc([m[0]], 1e4)[0], size=[int(x) for x in m[1].split()]) for m in re.findall(r'h = (\S+) +size = (.*)', g)])
    return dict(pw=pw, abinit=ab, cpmd=dict(len=sc(cell[:3], 1e4), ang=sc(cell[3:], 100), groups=groups), cp2k=cp2k, general=gen)


GMX = '''#!/opt/venv/bin/python
import sys, json
a = sys.argv[1:]
json.dump(a, open('gmx.args', 'w'))
o = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith('-')}
src = [l for l in open(o['-f']) if l.strip() != 'END']
mol = [l.split()[2] for l in open(o['-ci']) if l.startswith('ATOM')]
n = int(o.get('-nmol', 1))
for k, l in enumerate(open('gmx.pos')):
    src.append('ATOM  %5d %-4s SOL  %4d    ' % (len(src), ' ' + mol[k % len(mol)].strip('123'), k // len(mol) + 2) + l.strip('\\n') + '  1.00  0.00\\n')
open(o['-o'], 'w').writelines(src + ['END\\n'])
print('Added %d molecules (out of %d requested)' % (n, n))
if '-bad' in o: print('Fatal thing happened')
'''


def solvate(ev, st, scn, R, rng, no):
    """bin/solvate.sh with a stand-in for Gromacs, in a directory of its own."""
    d = 'solv%d' % no
    os.makedirs(d + '/b')
    for n, txt in [('gmx', GMX)] + [(n, '#!/bin/bash\nexec /opt/venv/bin/python "%s" "$@"\n' % os.path.join(BIN, n)) for n in ('pdb2cif.py', 'cif2any.py')]:
        open(d + '/b/' + n, 'w').write(txt)
        os.chmod(d + '/b/' + n, 0o755)
    name = R(['box', 'al-x', 'run.1', 'my-hydrate', 'c.pdb_old', 'n-h'])
    start = name + '.pdb'
    write_pdb(d + '/' + start, st)
    src = open(d + '/' + start).read()
    nmol = rng.randint(1, 3)
    mol = R([None, None, ['N', 'H'], ['O', 'Si', 'O']])
    args = [['-nmol', str(nmol)], ['-seed', str(rng.randint(1, 99))]]
    if mol:
        args.append(['-ci', 'mol.pdb'])
        open(d + '/mol.pdb', 'w').write(''.join('ATOM  %5d %-4s SOL  %4d    %8.3f%8.3f%8.3f  1.00  0.00\n' % (i + 1, ' ' + m, 1, i, 0, 0) for i, m in enumerate(mol)))
    bad = rng.random() < .3
    if bad: args.append(['-bad', '1'])
    pos = [[rng.randint(0, 19) for j in range(3)] for i in range(nmol * len(mol or 'OHH'))]
    open(d + '/gmx.pos', 'w').write(''.join('%8.3f%8.3f%8.3f\n' % tuple(np.dot(np.array(q) / 20., cellmat(st))) for q in pos))
    rng.shuffle(args)
    args = sum(args, [])
    kind = R(['run'] * 6 + ['help', 'none'])
    ev['kind'] = kind
    if kind == 'help': args, start = [], R(['-h', '--help'])
    before = set(os.listdir(d))
    p = subprocess.run(['bash', os.path.join(BIN, 'solvate.sh')] + ([] if kind == 'none' else [start] + args), cwd=d, env=dict(os.environ, PATH=os.path.abspath(d) + '/b:' + os.environ['PATH']),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    out = p.stdout.decode()
    new = sorted(x.replace(name + '_gmx', 'OUT') for x in set(os.listdir(d)) - before - {'gmx.args'} if not x.endswith('.log'))
    ev.update(op='solvate', rc=p.returncode, files=new, usage='usage' in out, error='error:' in out)
    if kind != 'run':
        return 'other'
    try:
        got = json.load(open(d + '/gmx.args'))
        o = {got[i]: got[i + 1] for i in range(1, len(got) - 1, 2)}
        cif = os.path.abspath(d + '/' + name + '_gmx.cif')
        r = read_cif(cif)
        ev.update(r, target=cif, kept=open(d + '/' + start).read() == src, passed=all(o.get(args[i]) == args[i + 1] for i in range(0, len(args), 2)) and o['-f'] == start,
                  mol=mol or [], pos=pos, nmol=nmol, bad=bad, said='Added %d molecules' % nmol in out, warned='Fatal' in out)
        a = read_any(open(cif + '.txt').read())
        ev.update(txt=a['pw']['atoms'])
    except Exception as e:
        return 'unreadable_' + type(e).__name__
    return ''


def run(scn, work):
    rng = random.Random(scn['seed'])
    R, st, evs = rng.choice, scn['st'], []
    os.chdir(work)
    cif, pdb = R(['x.cif', 'my.file.cif']), R(['x.pdb', 'y.z.pdb'])
    write_cif(cif, st, rng)
    write_pdb(pdb, st)
    for no, t in enumerate(scn['tools']):
        ev = dict(op=t)
        before = set(os.listdir('.'))
        if t == 'pdb2cif':
            own = R([[], ['o%d.cif' % no]])
            target = own[0] if own else pdb + '.cif'
            src = open(pdb).read()
            x, _ = tool('pdb2cif.py', pdb, *own)
            if not x:
                try:
                    ev.update(read_cif(target), target=target, written=sorted(set(os.listdir('.')) - before - {target}) + [target], kept=open(pdb).read() == src)
                    cif = target
                except Exception as e: x = 'unreadable_' + type(e).__name__
        elif t == 'sgroup':
            x, out = tool('cif2sgroup.py', cif)
            if not x:
                try:
                    L = [l.strip() for l in out.split('\n') if l.strip() and not l.startswith('/')]
                    c = L[1].split()
                    ev.update(lat=L[0], len=sc(c[:3], 1e4), ang=sc(c[3:], 100), n=int(L[2]), atoms=[atom(L[i + 1], L[i].split()) for i in range(3, len(L), 2)])
                except Exception as e: x = 'unreadable_' + type(e).__name__
        elif t == 'any':
            x, out = tool('cif2any.py', cif)
            if not x:
                try: ev.update(read_any(out))
                except Exception as e: x = 'unreadable_' + type(e).__name__
        elif t == 'fqha':
            # a broken line which ends at zero: the integral is its sum times the spacing
            n, de, m = rng.randint(1, 6), R([1, 2, 5]), 2 * rng.randint(2, 12) + 1
            y = np.zeros(m)
            y[1:-1:2] = 1
            for i in range(rng.randint(0, 3)):
                if m > 4: y[2 * rng.randint(1, (m - 3) // 2)] += 1
            y *= 3. * n / ((4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum()) * de / 3.)
            f0 = R([0, 0, -10])
            txt = ''.join('%.6f  %.10e\n' % (f0 + i * de, v) for i, v in enumerate(y))
            open('m.dos', 'w').write(txt)
            x, out = tool('matdyn2fqha.py', 'm.dos')
            if not x:
                try:
                    L = out.split('\n')
                    h = L[1].split()
                    ev.update(n=n, rows=m, last=sc([f0 + (m - 1) * de], 100)[0], step=de * 100, natom=[int(L[0]), int(h[0])], nstep=int(h[1]), emax=sc([h[2]], 100)[0], de=sc([h[3]], 100)[0],
                              copied='\n'.join(L[2:]).strip('\n') == txt.strip('\n'))
                except Exception as e: x = 'unreadable_' + type(e).__name__
        elif t == 'dispersion':
            nb, nk = R([3, 6, 9, 12]), rng.randint(2, 5)
            ks = [[0, 0, 0]]
            while len(ks) < nk:
                k = list(ks[-1]); k[rng.randrange(3)] += R([1, 2, -3]); ks.append(k)
            fr = [[rng.randint(-50, 900) for b in range(nb)] for k in ks]
            L = [' &plot nbnd=%4d, nks=%4d /' % (nb, nk)]
            for k, f in zip(ks, fr):
                L.append('          %10.6f%10.6f%10.6f' % tuple(k))
                for i in range(0, nb, 6): L.append(''.join('%10.4f' % v for v in f[i:i + 6]))
            open('m.freq', 'w').write('\n'.join(L) + '\n')
            plt.close('all')
            x, _ = tool('plot_dispersion.py', 'm.freq')
            nrm = [0]
            for a, b in zip(ks[1:], ks): nrm.append(nrm[-1] + sum(abs(i - j) for i, j in zip(a, b)))
            ev.update(norm=nrm, freqs=[[f[b] for f in fr] for b in range(nb)], lines=[[sc(l.get_xdata(), 1), sc(l.get_ydata(), 1)] for l in plt.gca().lines])
            plt.close('all')
        elif t == 'solvate':
            x = solvate(ev, st, scn, R, rng, no)
            if not x: cif = ev.pop('target')
            elif x == 'other': x = ''
        else:
            x, out = tool('pdb2cif.py', *R([[], ['-h'], ['--help'], [pdb, 'a', 'b']]))
            ev.update(files=len(set(os.listdir('.')) - before), said='usage' in out)
        ev['exc'] = x
        evs.append(ev)
    return st, evs


if __name__ == '__main__':
    main(globals())
