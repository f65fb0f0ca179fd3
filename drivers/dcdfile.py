import struct, json
import numpy as np
from _base import *
from pwtools import dcd, parse

WORKERS = 8


def from_mc(x):
    h = 7 * x['words'] + x['nset'] + 3 * x['n'] + 5 * x['nat']
    full = x['words'] >= x['total'] - 1 or x['words'] in (69, 68, 70)
    if not full and h % (13 if TIER == 'quick' else 17): return []
    return dict(nat=x['nat'], n=x['n'], cut=4 * (x['total'] - x['words']), nset=x['nset'], cos=bool(h % 2), seed=h)


def gen(rng, tier):
    out = []
    for i in range(60 if tier == 'quick' else 900):
        n = rng.choice([0, 1, 1, 2, 3, 5, 12, 40])
        nat = rng.choice([1, 1, 2, 3, 4, 7, 16])
        fs = 80 + 12 * nat
        cut = 0
        if n and rng.random() < .35: cut = rng.choice([1, 3, 4, 5, fs - 1, fs, 2 * fs, fs // 2, rng.randrange(1, fs + 1), rng.randrange(1, n * fs + 1), rng.randrange(1, n * fs + 277)])
        out.append(dict(nat=nat, n=n, cut=max(0, cut), nset=rng.choice([0, n, n, n + 1, max(0, n - 1), 1]), cos=rng.random() < .5, seed=rng.randrange(10**6), nofile=rng.random() < .06))
    return out


def write(fn, f, total):
    """independent writer: Fortran records"""
    rec = lambda b: struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))
    B = rec(b'CORD' + struct.pack('<9i', f['nset'], *f['ints']) + struct.pack('<f', f['dt'] / 1024.) + struct.pack('<10i', 1, 0, 0, 0, 0, 0, 0, 0, 0, 24))
    B += rec(struct.pack('<i', 2) + f['rem'][0].encode().ljust(80) + f['rem'][1].encode().ljust(80))
    B += rec(struct.pack('<i', f['nat']))
    for fr in f['fr']:
        a, b, c, al, be, ga = fr['cc']
        B += rec(struct.pack('<6d', a / 8., ga / 1000., b / 8., be / 1000., al / 1000., c / 8.))
        x = fr['x']
        for k in range(3): B += rec(struct.pack('<%df' % f['nat'], *[v / 8. for v in x[k::3]]))
    B = B[:len(B) - total] if total else B
    open(fn, 'wb').write(B)
    return len(B)


def make(sc, rng):
    nat = sc['nat']
    if sc['cos']: ang = lambda: rng.choice([0, 500, -500, rng.randint(-990, 990), rng.randint(-990, 990)])
    else: ang = lambda: rng.choice([90000, 60000, rng.randint(20000, 160000)])
    f = dict(nat=nat, nset=sc['nset'], dt=rng.randint(1, 4096), ints=[rng.randint(0, 500) for i in range(3)] + [0] * 5, rem=['REMARK a %d' % rng.randint(0, 99), 'x'])
    f['fr'] = [dict(cc=[rng.randint(8, 300) for k in range(3)] + [ang() for k in range(3)], x=[rng.randint(-4000, 4000) for k in range(3 * nat)]) for t in range(sc['n'])]
    return f


def obs(cc, co, conv):
    """angles as stored: degrees, or (if they were converted from it) their cosine"""
    cc = np.array(cc, float)
    a = cc[..., 3:]
    rng_ok = bool(np.all((a >= 0) & (a <= 180))) if conv else True
    if conv: a = np.cos(a * np.pi / 180)
    o = nd(np.concatenate((cc[..., :3], a), axis=-1), 1)
    d = np.concatenate((cc[..., :3] * 8, a * 1000), axis=-1).ravel()
    o['d'] = [snap(v, 1, 1e-4) for v in d]
    return dict(cc=o, co=nd(co, 8), range=rng_ok)


def child(fn):
    """run fn in a forked process (the Fortran code stops the process on errors)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1); os.dup2(dn, 2)
            x, v = call(fn)
            with os.fdopen(w, 'w') as fd: json.dump([x, v], fd)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fd: s = fd.read()
    os.waitpid(pid, 0)
    return tuple(json.loads(s)) if s else ('Stopped', None)


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    os.mkdir('d')
    lmp = sc['cos']
    fn = 'd/lmp.out.dcd' if lmp else 'd/PROJECT-pos-1.dcd'
    f = make(sc, rng)
    if sc.get('nofile'): f['size'] = -1
    else: f['size'] = write(fn, f, sc['cut'])
    evs = [dict(op='file', f={k: v for k, v in f.items() if k not in ('rem', 'ints')})]
    if not sc.get('nofile'):
        x, h = call(dcd.read_dcd_header, fn)
        evs.append(dict(op='hdr', exc=x, nat=int(h['natoms']) if not x else 0, nset=int(h['9int'][0]) if not x else 0, size=dcd.HEADER_DTYPE.itemsize, dt=snap(h['timestep'], 1024) if not x else 0))
        conv = bool(sc['cos'])
        for c in ([True, False] if conv else [False]):
            rds = [('np', lambda: dcd.read_dcd_data(fn, convang=c)), ('ref', lambda: dcd.read_dcd_data_ref(fn, convang=c)),
                   ('f', lambda: dcd.read_dcd_data_f(fn, convang=c)), ('fh', lambda: dcd.read_dcd_data_f(fn, convang=c, nstephdr=True))]
            if not c: rds.append(('np', lambda: dcd.read_dcd_data(fn))); rds.append(('ref', lambda: dcd.read_dcd_data_ref(fn)))
            rng.shuffle(rds)
            for rd, fun in rds:
                x, o = child(lambda: obs(*fun(), c))
                evs.append(dict(op='read', rd=rd, conv=c, exc=x, o=o if not x else dict(cc=dict(s=[], d=[]), co=dict(s=[], d=[]), range=True)))
    cls = parse.LammpsDcdMDOutputFile if lmp else parse.Cp2kDcdMDOutputFile
    if lmp: open('d/log.lammps', 'w').write('timestep 0.001\nStep Volume\n0 17.5\n1 17.5\nLoop time\n')
    else:
        open('d/cp2k.out', 'w').write('nothing\n')
        open('d/PROJECT-1.cell', 'w').write('#   Step   Time [fs]       Ax [Angstrom]\n' + '1 0.5 7 0 0 0 8 0 0 0 9 504.0\n' * 2)
    p = cls('d/log.lammps' if lmp else 'd/cp2k.out')
    ats = ['natoms', 'nstep', 'coords', 'cryst_const', 'cell', 'volume']
    rng.shuffle(ats)
    for a in ats:
        x, v = call(getattr(p, 'get_' + a))
        if not x:
            if v is None: o = nd(None)
            elif a == 'coords': o = nd(v, 8)
            elif a == 'cryst_const': o = obs(v, np.zeros(1), lmp)['cc']
            else: o = nd(v, 1)
        evs.append(dict(op='get', a=a, exc=x, o=o if not x else nd(None)))
    return {}, evs


if __name__ == '__main__':
    main(globals())
