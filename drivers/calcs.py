"""Histories of calculator objects; the external programs are stand-ins that log what they read and wrote."""
import hashlib, os, re
import numpy as np
from _base import *
from ase import Atoms
from pwtools import calculators as C

WORKERS = 8
FAKE = '''#!/opt/venv/bin/python -IS
import sys, os, json, hashlib
code, W = %(code)r, %(work)r
h = lambda t: hashlib.md5(t.encode()).hexdigest()
a = sys.argv[1:]
src = open(a[a.index('-input') + 1]).read() if '-input' in a else open(a[a.index('-in') + 1]).read() if '-in' in a else sys.stdin.read()
nxt = json.load(open(W + '/next.json'))
rec = dict(code=code, cwd=os.path.realpath('.'), src=src, struct='', sname='', wr={})
out, rc = '', 0
if nxt['fail']:
    rc = 1
elif code == 'pw':
    nat = len(nxt['f'])
    out = '     Program PWSCF v.6.7MaX starts on 19Nov2026\\n     bravais-lattice index     =            0\\n     lattice parameter (alat)  =      10.0000  a.u.\\n     number of atoms/cell      =  %%12d\\n' %% nat
    out += '     crystal axes: (cart. coord. in units of alat)\\n               a(1) = (   1.000000   0.000000   0.000000 )\\n               a(2) = (   0.000000   1.000000   0.000000 )\\n               a(3) = (   0.000000   0.000000   1.000000 )\\n\\n'
    out += '   Cartesian axes\\n\\n     site n.     atom                  positions (alat units)\\n'
    out += ''.join('     %%5d           Al  tau( %%3d) = (   0.0000000   0.0000000   0.0000000  )\\n' %% (i + 1, i + 1) for i in range(nat))
    out += '\\n!    total energy              = %%16.8f Ry\\n     convergence has been achieved in  11 iterations\\n\\n     Forces acting on atoms (cartesian axes, Ry/au):\\n\\n' %% (nxt['e'] / 1000.)
    out += ''.join('     atom %%4d type  1   force = %%13.8f %%13.8f %%13.8f\\n' %% ((i + 1,) + tuple(x / 1000. for x in f)) for i, f in enumerate(nxt['f']))
    xx, yy, zz, yz, xz, xy = nxt['s']
    out += '\\n     total   stress  (Ry/bohr**3)                   (kbar)     P=        0.00\\n'
    out += ''.join('   0.00000000   0.00000000   0.00000000       %%9.2f   %%9.2f   %%9.2f\\n' %% tuple(r) for r in ((xx, xy, xz), (xy, yy, yz), (xz, yz, zz)))
    out += '\\n   JOB DONE.\\n'
else:
    words = [l.split('#')[0].split() for l in src.replace('&\\n', ' ').splitlines()]
    get = lambda k: [w for w in words if w and w[0] == k]
    sn = get('read_data')[0][1]
    rec['sname'], rec['struct'] = sn, open(sn).read()
    th = get('thermo_style')[0][2:]
    HD = dict(step='Step', temp='Temp', vol='Volume', cella='Cella', cellb='Cellb', cellc='Cellc', cellalpha='CellAlpha', cellbeta='CellBeta', cellgamma='CellGamma', pe='PotEng', pxx='Pxx', pyy='Pyy', pzz='Pzz', pxy='Pxy', pxz='Pxz', pyz='Pyz', press='Press', ke='KinEng', etotal='TotEng')
    xx, yy, zz, yz, xz, xy = nxt['s']
    val = dict(step=0, temp=0, vol=1000, cella=10, cellb=10, cellc=10, cellalpha=90, cellbeta=90, cellgamma=90, pe=nxt['e'] / 1000., pxx=xx, pyy=yy, pzz=zz, pxy=xy, pxz=xz, pyz=yz, press=0, ke=0, etotal=0)
    out = 'LAMMPS (7 Feb 2024)\\nSetting up Verlet run ...\\n  Unit style    : metal\\n  Current step  : 0\\n  Time step     : 0.001\\nPer MPI rank memory allocation (min/avg/max) = 4.1 | 4.1 | 4.1 Mbytes\\n'
    out += ' '.join(HD[t] for t in th) + '\\n' + ' '.join('%%.12g' %% val[t] for t in th) + '\\nLoop time of 1e-06 on 1 procs for 0 steps with %%d atoms\\n' %% len(nxt['f'])
    for d in get('dump'):
        fn, cols = d[5], d[6:]
        typ = {}
        sec = rec['struct'].split('Atoms')[1].split('\\n') if 'Atoms' in rec['struct'] else []
        for l in sec:
            w = l.split()
            if len(w) >= 5: typ[int(w[0])] = w[1]
        txt = 'ITEM: TIMESTEP\\n0\\nITEM: NUMBER OF ATOMS\\n%%d\\nITEM: BOX BOUNDS pp pp pp\\n0 10\\n0 10\\n0 10\\nITEM: ATOMS %%s\\n' %% (len(nxt['f']), ' '.join(cols))
        for i, f in enumerate(nxt['f']):
            v = dict(id=i + 1, type=typ.get(i + 1, 1), xu=0, yu=0, zu=0, x=0, y=0, z=0, fx=f[0] / 1000., fy=f[1] / 1000., fz=f[2] / 1000.)
            txt += ' '.join(str(v[c]) for c in cols) + '\\n'
        open(fn, 'w').write(txt); rec['wr'][fn] = h(txt)
    open('log.lammps', 'w').write(out); rec['wr']['log.lammps'] = h(out)
rec['out'] = h(out)
sys.stdout.write(out); sys.stdout.flush()
open(W + '/log', 'a').write(json.dumps(rec) + '\\n')
sys.exit(rc)
'''
ELS = ['Al', 'C', 'Ca', 'H', 'N', 'Ni', 'O', 'Si']
GRP = [['C', 'Ca'], ['N', 'Ni'], ['Al', 'N'], ['Si'], ['Ca', 'C', 'Ni', 'N']]


def from_mc(x):
    ops = []
    import zlib
    rng = random.Random(zlib.crc32(repr(x).encode()))
    sts = {}
    codes = []
    nid = 0
    els = rng.choice(GRP)
    def st(code, tag):
        if (code, tag) not in sts:
            if tag == 'A' or rng.random() < .4: sts[code, tag] = rstruct(rng, code, els)
            else:
                s = json.loads(json.dumps(st(code, 'A')))
                k = rng.randrange(3)
                if k == 0: i = rng.randrange(len(s['f'])); j = rng.randrange(3); s['f'][i][j] = (s['f'][i][j] + rng.choice([1, 50, 999])) % 1000
                if k == 1: j = rng.randrange(3); s['cell'][j][j] += 1
                if k == 2: i = rng.randrange(len(s['sym'])); s['sym'][i] = rng.choice([e for e in els + ELS[:2] if e != s['sym'][i]])
                sts[code, tag] = s
        return sts[code, tag]
    ab = {}
    for e in x:
        if e['op'] == 'new':
            nid += 1; codes.append(e['code'])
            kw = {'ecutwfc': 30.0} if e['k'] == 'ecutwfc' else {'backup': True} if e['k'] else {}
            if e['code'] == 'pw': kw = dict(pwkw(rng), **kw)
            ops.append(dict(op='new', code=e['code'], kw=kw, d=rng.choice([0, 1, nid, nid])))
        elif e['op'] == 'set':
            c = codes[e['id'] - 1]
            if e['k'] == 'backup': kw = dict(backup=True)
            else:
                if (c, e['v']) not in ab: ab[c, e['v']] = setkw(rng, c)
                kw = ab[c, e['v']]
            ops.append(dict(op='set', id=e['id'], kw=kw))
        else:
            ops.append(dict(op='calc', id=e['id'], st=st(codes[e['id'] - 1], e['st']), fail=e['fail'], prop=rng.choice(['e', 'f', 's'])))
    return dict(ops=ops, seed=rng.randrange(10**6), els=els)


def rstruct(rng, code, els=ELS):
    n = rng.choice([1, 2, 2, 3, 5]) if len(els) < 4 else 6
    c = [[rng.randint(250, 1500), 0, 0], [0, rng.randint(250, 1500), 0], [0, 0, rng.randint(250, 1500)]]
    if rng.random() < .6:
        c[1][0] = rng.randint(-90, 90); c[2][0] = rng.randint(-90, 90); c[2][1] = rng.randint(-90, 90)
        if code == 'pw': c[0][1] = rng.randint(-90, 90); c[0][2] = rng.randint(-90, 90); c[1][2] = rng.randint(-90, 90)
    return dict(sym=rng.sample((els * 6)[:max(n, len(els))], n), cell=c, f=[[rng.randint(0, 999) for k in range(3)] for i in range(n)])


def pps(rng):
    if rng.random() < .5: return rng.choice(['pbe-n-kjpaw_psl.0.1.UPF', 'pz.UPF'])
    return 'LIST'


def pwkw(rng):
    return dict(pp=pps(rng), pseudo_dir=rng.choice(['/pseudo', './ps', '/a/b c']), outdir=rng.choice(['/scratch/x', './out', '/tmp']))


def setkw(rng, code, n=1):
    if code == 'lmp':
        c = dict(pair_style=rng.choice(['tersoff', 'lj/cut 5', 'eam']), pair_coeff=rng.choice(['* * ./AlN.tersoff Al N', '* * 0.1 2.5', '* * x.eam Al']))
    else:
        c = dict(ecutwfc=rng.choice([30.0, 40.5, 80.0, 100]), ecutrho=rng.choice([None, 200.0, 444]), kpts=rng.choice([[1, 2, 3], [6, 6, 4], 5.0, 3.5, 1.2, [1, 1, 1]]), conv_thr=rng.choice([1e-8, 1e-10, 2.5e-6]),
                 mixing_beta=rng.choice([.3, .7]), mixing_mode=rng.choice(['plain', 'TF']), diagonalization=rng.choice(['david', 'cg']), electron_maxstep=rng.choice([500, 20]), calc_name=rng.choice(['pwscf', 'job2']), pp=pps(rng), outdir=rng.choice(['/scratch/y', './o']),
                 pseudo_dir='/ps2')
    return {k: c[k] for k in rng.sample(sorted(c), min(n, len(c)))}


def gen(rng, tier):
    out = []
    for q in range(40 if tier == 'quick' else 700):
        ops, codes, pool = [], [], []
        els = rng.choice(GRP)
        for i in range(rng.randint(5, 14)):
            r = rng.random()
            if not codes or r < .2:
                code = rng.choice(['pw', 'pw', 'lmp'])
                kw = dict(pwkw(rng), **setkw(rng, 'pw', rng.choice([0, 1, 3, 6]))) if code == 'pw' else setkw(rng, 'lmp', rng.randint(0, 2))
                if rng.random() < .4: kw['backup'] = rng.random() < .8
                if rng.random() < .4: kw['label'] = rng.choice(['pw', 'run', 'lmp', 'my.calc'])
                if rng.random() < .08:
                    if code == 'pw' and rng.random() < .5: kw.pop(rng.choice(['pp', 'pseudo_dir', 'outdir']), None)
                    else: kw['nokey'] = 1
                    ops.append(dict(op='bad', code=code, kw=kw, d=rng.randint(0, 3))); continue
                codes.append(code)
                ops.append(dict(op='new', code=code, kw=kw, d=rng.randint(0, 3), cmd=rng.randint(0, 2)))
            elif r < .45:
                k = rng.randrange(len(codes))
                kw = setkw(rng, codes[k], rng.choice([1, 1, 2]))
                if rng.random() < .2: kw['backup'] = rng.random() < .7
                ops.append(dict(op='set', id=k + 1, kw=kw))
            elif r < .5:
                ops.append(dict(op='pre', d=rng.randint(0, 3), n=rng.choice(['pw.in', 'pw.out', 'lmp.in', 'lmp.struct', 'notes.txt', 'pw.in.0', 'log.lammps', 'lmp.out.dump']), t='t%d' % i))
            else:
                k = rng.randrange(len(codes))
                own = [s for s in pool if s[0] == codes[k]]
                if own and rng.random() < .6: s = rng.choice(own)[1]
                elif own and rng.random() < .6:
                    s = json.loads(json.dumps(rng.choice(own)[1]))
                    w = rng.randrange(4)
                    if w == 0: s['f'][rng.randrange(len(s['f']))][rng.randrange(3)] = rng.randrange(1000)
                    elif w == 1: j = rng.randrange(3); s['cell'][j][j] += 1
                    elif w == 2: s['sym'][rng.randrange(len(s['sym']))] = rng.choice(els * 4 + ELS)
                    else: i = rng.randrange(len(s['sym'])); s['sym'].append(s['sym'][i]); s['f'].append([(x + 500) % 1000 for x in s['f'][i]])
                else: s = rstruct(rng, codes[k], els)
                pool.append((codes[k], s))
                ops.append(dict(op='calc', id=k + 1, st=s, fail=rng.random() < .12, prop=rng.choice(['e', 'f', 's', 'e']), inplace=rng.random() < .5))
        out.append(dict(ops=ops, seed=rng.randrange(10**6), els=els))
    return out


FL = ['ecutwfc', 'ecutrho', 'conv_thr', 'mixing_beta', 'charge']
def val(k, v):
    d = dict(k=k, v='', n=[], l=[])
    if v is None: d['v'] = 'None'
    elif k == 'kpts': d['v'], d['n'] = ('list', [int(x) for x in v]) if isinstance(v, (list, tuple)) else ('scalar', [int(round(10 * v))])
    elif k == 'pp' and not isinstance(v, str): d['v'], d['l'] = 'list', [dict(e=re.match('[A-Z][a-z]?', x).group(), f=x) for x in v]
    elif k in FL:
        d['v'] = repr(float(v))
        if k.startswith('ecut'): d['n'] = [snap(v, 1000)]
    elif k == 'electron_maxstep': d['v'] = repr(float(v))
    else: d['v'] = str(v)
    return d


def kv(p):
    return [val(k, p[k]) for k in sorted(p)]


def flt(s):
    try: return repr(float(s.replace('d', 'e')))
    except Exception: return '?' + str(s)


def pw_in(txt, f):
    r = dict(prefix='', pseudo_dir='', outdir='', conv_thr='', mixing_beta='', mixing_mode='', diagonalization='', electron_maxstep='', ecutwfc=-1, ecutrho=-1, nat=-1, ntyp=-1, species=[], pos=[], cell=[], kpts=[])
    ls = [l.strip() for l in txt.splitlines() if l.strip()]
    mode = ''
    for l in ls:
        m = re.match(r"(\w+)\s*=\s*(.*?),?$", l)
        w = l.split()
        if w[0] in ('ATOMIC_SPECIES', 'CELL_PARAMETERS', 'ATOMIC_POSITIONS', 'K_POINTS'):
            mode = w[0]
            if (mode == 'CELL_PARAMETERS' and w[1] != 'angstrom') or (mode == 'ATOMIC_POSITIONS' and w[1] != 'crystal') or (mode == 'K_POINTS' and w[1] != 'automatic'): mode = 'unknown'
        elif m:
            k, v = m.group(1), m.group(2).strip()
            if v[:1] == "'": v = v[1:v.rindex("'")]
            if k in ('ecutwfc', 'ecutrho'): r[k] = snap(v, 1000)
            elif k in ('nat', 'ntyp'): r[k] = snap(v)
            elif k in ('conv_thr', 'mixing_beta', 'electron_maxstep'): r[k] = flt(v)
            elif k in r and isinstance(r[k], str): r[k] = v
        elif mode == 'ATOMIC_SPECIES': r['species'].append(dict(s=w[0], m=snapr(w[1], 1000), f=' '.join(w[2:])))
        elif mode == 'CELL_PARAMETERS': r['cell'].append([snapr(x, 1000000) for x in w])
        elif mode == 'ATOMIC_POSITIONS': r['pos'].append(dict(s=w[0], f=[snapr(x, 1000000) for x in w[1:4]]))
        elif mode == 'K_POINTS': r['kpts'] = [snap(x) for x in w]
    return r


def lmp_in(txt, struct):
    r = dict(pair_style='', pair_coeff='', nat=-1, ntyp=-1, cell=[], pos=[])
    for l in txt.splitlines():
        for k in ('pair_style', 'pair_coeff'):
            if l.startswith(k): r[k] = l[len(k):].strip()
    b = dict(xlo=0, xhi=0, ylo=0, yhi=0, zlo=0, zhi=0, xy=0, xz=0, yz=0)
    pos = []
    on = False
    for l in struct.splitlines():
        w = l.split('#')[0].split()
        if not w: continue
        if w[-1] == 'atoms': r['nat'] = snap(w[0])
        elif w[-1] == 'types': r['ntyp'] = snap(w[0])
        elif 'xlo' in w or 'ylo' in w or 'zlo' in w or 'xy' in w:
            n = len(w) // 2
            for x, k in zip(w[:n], w[n:]): b[k] = float(x)
        elif w[0] == 'Atoms': on = True
        elif on and len(w) >= 5: pos.append([int(w[1])] + [float(x) for x in w[2:5]])
    c = np.array([[b['xhi'] - b['xlo'], 0, 0], [b['xy'], b['yhi'] - b['ylo'], 0], [b['xz'], b['yz'], b['zhi'] - b['zlo']]])
    r['cell'] = [[snapr(x, 1000000) for x in row] for row in c]
    if pos:
        fr = np.dot(np.array([p[1:] for p in pos]) - [b['xlo'], b['ylo'], b['zlo']], np.linalg.inv(c))
        r['pos'] = [dict(t=p[0], f=[snapr(x, 1000000) for x in f]) for p, f in zip(pos, fr)]
    return r


def run(sc, work):
    rng = random.Random(sc['seed'])
    work = os.path.realpath(work)
    bin = os.path.join(work, 'bin'); os.makedirs(bin)
    root = os.path.join(work, 'root'); os.makedirs(root); os.chdir(root)
    for n, code in (('pw.x', 'pw'), ('lmp', 'lmp')):
        fn = os.path.join(bin, n)
        open(fn, 'w').write(FAKE % dict(code=code, work=work)); os.chmod(fn, 0o755)
    os.environ['PATH'] = bin + ':' + os.environ['PATH']
    DIRS = ['.', os.path.join(root, 'abs/dir'), 'rel', 'rel2/sub']
    log = os.path.join(work, 'log')
    CL = dict(pw=C.Pwscf, lmp=C.Lammps)
    hdr = dict(pw=kv(C.Pwscf.default_parameters), lmp=kv(C.Lammps.default_parameters))
    evs, inst, meta, atoms = [], [], [], {}
    def listpp(kw, sym=sc['els']):
        if kw.get('pp') == 'LIST':
            kw = dict(kw)
            l = [e + rng.choice(['.pbe.UPF', '_ONCV.UPF', '.pz-vbc.UPF', '-q.UPF']) for e in sym]
            rng.shuffle(l); kw['pp'] = l
        return kw
    def obs(ev):
        fs = []
        for k, d in enumerate(DIRS):
            if os.path.isdir(d):
                for n in sorted(os.listdir(d)):
                    p = os.path.join(d, n)
                    if os.path.isfile(p) and '.symbols' not in n:
                        fs.append(dict(d='d%d' % k, n=n, h=hashlib.md5(open(p, 'rb').read()).hexdigest()))
        ev.update(fs=fs, params=[kv(c.parameters) for c in inst], defpw=kv(C.Pwscf.default_parameters), deflmp=kv(C.Lammps.default_parameters))
        evs.append(ev)
    for o in sc['ops']:
        if o['op'] in ('new', 'bad'):
            kw = listpp(o['kw'])
            d = o['d']
            if d or rng.random() < .3: kw = dict(kw, directory=DIRS[d])
            lab = kw.get('label', o['code'])
            if lab != o['code'] or o.get('cmd'):
                exe = dict(pw='pw.x', lmp='lmp')[o['code']]
                kw['command'] = ['%s < %s.in > %s.out', '%s < %s.in > %s.out 2>&1', '%s -in %s.in | tee %s.out'][o.get('cmd', 0)] % (exe, lab, lab)
            piped = 'tee' in kw.get('command', '') or ('command' not in kw and o['code'] == 'pw')
            given = kv(kw)
            exc, c = call(CL[o['code']], **kw)
            if exc == '' and o['op'] == 'new': inst.append(c); meta.append((o['code'], d, lab))
            obs(dict(op=o['op'], code=o['code'], kw=given, exc=exc))
            if exc: break
        elif o['op'] == 'set':
            kw = listpp(o['kw'])
            exc, r = call(inst[o['id'] - 1].set, **kw)
            obs(dict(op='set', id=o['id'], kw=kv(kw), exc=exc))
        elif o['op'] == 'pre':
            d = DIRS[o['d']]
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, o['n']), 'w').write(o['t'])
            obs(dict(op='pre', d='d%d' % o['d'], n=o['n'], h=hashlib.md5(o['t'].encode()).hexdigest()))
        else:
            i = o['id'] - 1
            c, (code, d, lab) = inst[i], meta[i]
            s = o['st']
            nat = len(s['sym'])
            nxt = dict(e=rng.randint(-150, -1), f=[[rng.randint(-20, 20) for k in range(3)] for a in range(nat)], s=[rng.randint(-500, 500) for k in range(6)], fail=o['fail'])
            json.dump(nxt, open(os.path.join(work, 'next.json'), 'w'))
            at = atoms.get(i)
            new = Atoms(s['sym'], cell=np.array(s['cell']) / 100., scaled_positions=np.array(s['f']) / 1000., pbc=True)
            if at is not None and o.get('inplace') and len(at) == nat:
                at.set_cell(new.get_cell()); at.set_positions(new.get_positions()); at.set_chemical_symbols(s['sym'])
            else: at = new
            atoms[i] = at
            at.calc = c
            if os.path.exists(log): os.remove(log)
            def go():
                f = dict(e=at.get_potential_energy, f=at.get_forces, s=at.get_stress)
                f[o['prop']]()
                return at.get_potential_energy(), at.get_forces(), at.get_stress()
            exc, r = call(go)
            recs = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
            ev = dict(op='calc', id=o['id'], st=s, fail=o['fail'], exc=exc, ran=len(recs), d='d%d' % d, cwd='', nxt=dict(e=nxt['e'], f=nxt['f'], s=nxt['s']), rd=[], wr=[], inp=[], r=dict(e=INEXACT, f=[], s=[]))
            if exc == '':
                try: ev['r'] = dict(e=snapr(r[0], 1e6), f=[[snapr(x, 1e6) for x in row] for row in np.array(r[1], dtype=float)], s=[snapr(x, 1e9) for x in np.array(r[2], dtype=float)])
                except Exception: pass
            if recs:
                q = recs[-1]
                cw = [k for k, x in enumerate(DIRS) if os.path.realpath(x) == q['cwd']]
                ev['cwd'] = 'd%d' % cw[0] if cw else '?'
                h = lambda t: hashlib.md5(t.encode()).hexdigest()
                ev['rd'] = [dict(n=lab + '.in', h=h(q['src']))]
                if q['sname']: ev['rd'].append(dict(n=q['sname'], h=h(q['struct'])))
                elif code == 'lmp' and o['fail']:        # failed before reading the structure: take it as found
                    p = os.path.join(DIRS[d], lab + '.struct')
                    q['struct'] = open(p).read() if os.path.exists(p) else ''
                    ev['rd'].append(dict(n=lab + '.struct', h=h(q['struct'])))
                ev['wr'] = [dict(n=lab + '.out', h=q['out'])] + [dict(n=n, h=x) for n, x in q['wr'].items()]
                exc2, inp = call(pw_in, q['src'], 0) if code == 'pw' else call(lmp_in, q['src'], q['struct'])
                if exc2: ev['unparsed'] = exc2
                else: ev['inp'] = inp
            obs(ev)
    return hdr, evs


main(globals())
