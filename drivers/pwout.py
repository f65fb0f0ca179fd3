import os
import numpy as np
from _base import *
from pwtools import io as pio
from pwtools import parse, io

WORKERS = 8
BOHR = 0.52917720859           # Ang
RY = 13.60569193               # eV
TRYD = 4.837768653e-2          # fs
ELS = ['H', 'Al', 'N', 'Si', 'O']


def from_mc(x):
    h = sum(ord(c) for c in x['punit'] + x['cunit']) + 2 * x['force'] + x['temp']
    if TIER == 'quick' and h % 3 == 0: return []
    return dict(lay=x, kind='md', n=1 + h % 3, nat=1 + h % 4, seed=h)


def gen(rng, tier):
    out = []
    for i in range(40 if tier == 'quick' else 700):
        cell = rng.random() < .6
        lay = dict(cell=cell, force=rng.random() < .8, stress=rng.random() < .8, temp=rng.random() < .6, punit=rng.choice(['', 'bohr', 'angstrom', 'alat', 'crystal']),
                   cunit=rng.choice(['', 'alat', 'alat=', 'bohr', 'angstrom']) if cell else '')
        out.append(dict(lay=lay, kind=rng.choice(['md', 'md', 'md', 'vcmd', 'scf', 'scf']), n=rng.choice([1, 1, 2, 3, 6]), nat=rng.choice([1, 2, 3, 7, 12]), seed=rng.randrange(10**6)))
    for i in range(6):
        out.append(dict(lay=dict(cell=False, force=True, stress=True, temp=False, punit='alat', cunit=''), kind='cut', n=2 + i % 3, nat=2, seed=i))
    return out


def blk(unit, rng):
    if unit == '': return ''
    return rng.choice([' (%s)', ' (%s)', ' {%s}', ' %s']) % unit


def make(sc, rng):
    lay, nat = sc['lay'], sc['nat']
    sym = [rng.choice(ELS) for i in range(nat)]
    f = dict(sym=sym, alat=rng.randint(11, 99), nk=rng.randint(1, 40), punit=lay['punit'], cunit=lay['cunit'], dt=rng.choice([0, rng.randint(100, 20000)]))
    m = lambda r, c, lo, hi: [[rng.randint(lo, hi) for k in range(c)] for j in range(r)]
    f['cell0'] = [[rng.randint(50, 120), rng.randint(-20, 20), 0], [rng.randint(-20, 20), rng.randint(60, 140), 0], [rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(60, 160)]]
    f['pos0'] = m(nat, 3, -150, 150)
    blocks = []
    conv = lambda: True if sc['kind'] != 'scf' else rng.random() < .8
    nf = rng.choice([1, 1, 2, 3])
    def scf():
        return dict(k='scf', e=rng.randint(-9999999, -1), f=[m(nat, 3, -2000, 2000) for q in range(nf)] if lay['force'] else [], s=m(3, 3, -30000, 30000) if lay['stress'] else [], it=rng.randint(1, 60), conv=conv())
    def pos():
        return dict(k='pos', x=m(nat, 3, -150, 250), cell=[[rng.randint(50, 120), rng.randint(-20, 20), 0], [rng.randint(-20, 20), rng.randint(60, 140), 0], [rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(60, 160)]] if lay['cell'] else [],
                    calat=calat, ekin=[rng.randint(0, 90000)] if lay['temp'] else [], temp=[rng.randint(0, 90000)] if lay['temp'] else [], econst=[rng.randint(-90000, -1)] if lay['temp'] and sc['kind'] == 'vcmd' else [])
    calat = f['alat']
    blocks.append(scf())
    if sc['kind'] != 'scf':
        for t in range(sc['n']):
            if rng.random() < .2: calat = rng.randint(11, 99)
            blocks.append(pos()); blocks.append(scf())
        if sc['kind'] == 'cut':
            if rng.random() < .5: blocks.pop()                      # killed during the last SCF
            else: blocks.append(dict(blocks[-2]))                   # "final coordinates" printed once more
    f['blocks'] = blocks
    return f


def text(f, sc, rng):
    nat = len(f['sym']); out = []
    w = out.append
    old = rng.random() < .5
    a0 = 'a_0' if old else 'alat'
    w('\n     Program PWSCF v.5.0.2 starts on 1Jan2014\n')
    w('     bravais-lattice index     =            0')
    w('     lattice parameter (%s)  =  %12.4f  a.u.' % (a0, f['alat'] / 10.))
    w('     unit-cell volume          =     123.1234 (a.u.)^3')
    w('     number of atoms/cell      = %12d' % nat)
    w('     number of atomic types    =            2')
    w('     number of electrons       =         8.00')
    w('     crystal axes: (cart. coord. in units of %s)' % a0)
    for i, v in enumerate(f['cell0']): w('               a(%d) = ( %10.6f %10.6f %10.6f )  ' % (i + 1, v[0] / 100., v[1] / 100., v[2] / 100.))
    w('\n     reciprocal axes: (cart. coord. in units 2 pi/%s)' % a0)
    for i in range(3): w('               b(%d) = ( %10.6f %10.6f %10.6f )  ' % (i + 1, .5, .25, 0))
    w('\n     atomic species   valence    mass     pseudopotential')
    w('        H              1.00     1.00000     H ( 1.00)\n')
    w('   Cartesian axes\n')
    w('     site n.     atom                  positions (%s units)' % a0)
    for i in range(nat): w('%10d           %-3s tau(%4d) = ( %11.7f %11.7f %11.7f  )' % ((i + 1, f['sym'][i], i + 1) + tuple(x / 100. for x in f['pos0'][i])))
    if rng.random() < .5:
        w('\n   Crystallographic axes\n\n     site n.     atom                  positions (cryst. coord.)')
        for i in range(nat): w('%10d           %-3s tau(%4d) = ( %11.7f %11.7f %11.7f  )' % (i + 1, f['sym'][i], i + 1, .1, .2, .3))
    w('\n     number of k points= %5d%s' % (f['nk'], rng.choice(['', '  gaussian broad. (Ry)=  0.0100     ngauss =   0', '  Methfessel-Paxton smearing, width (Ry)=  0.0200'])))
    w('                       cart. coord. in units 2pi/%s' % a0)
    for k in range(min(f['nk'], 3)): w('        k(%5d) = (   0.0000000   0.0000000   0.0000000), wk =   2.0000000' % (k + 1))
    started = False
    first = True
    for b in f['blocks']:
        if b['k'] == 'scf':
            for q in range(3): w('\n     iteration # %2d     ecut=    30.00 Ry     beta=0.70\n     total cpu time spent up to now is      1.23 secs\n\n     total energy              =    %14.8f Ry' % (q + 1, -1.5))
            w('\n     End of self-consistent calculation\n')
            w('%s    total energy              = %16.8f Ry' % ('!' if b['conv'] else ' ', b['e'] / 1000.))
            w('     Harris-Foulkes estimate   = %16.8f Ry' % -2.)
            w('\n     convergence has been achieved in %3d iterations' % b['it'] if b['conv'] else '\n     convergence NOT achieved after 100 iterations: stopping')
            if b['f']:
                w('\n     Forces acting on atoms (Ry/au):\n')
                names = ['', '     The non-local contrib.  to forces', '     The ionic contribution  to forces']
                for q, m in enumerate(b['f']):
                    if q: w(names[q])
                    for i, v in enumerate(m): w('     atom %4d type %2d   force = %13.8f %13.8f %13.8f' % (i + 1, 1, v[0] / 1000., v[1] / 1000., v[2] / 1000.))
                w('\n     Total force = %11.6f     Total SCF correction = %11.6f' % (.1, .0001))
            if b['s']:
                w('\n\n     entering subroutine stress ...\n')
                w('          total   stress  (Ry/bohr**3)                   (kbar)     P= %8.2f' % 1.25)
                for v in b['s']: w('%14.8f%14.8f%14.8f    %10.2f%10.2f%10.2f' % tuple([x * 7.1e-6 for x in v] + [x / 100. for x in v]))
            w('')
        else:
            if first:
                first = False
                if f['dt']:
                    w('\n     Molecular Dynamics Calculation\n')
                    if b['temp'] and sc['kind'] != 'vcmd': w('     Starting temperature  = %8.2f K' % 123.45)
                    w('     mass H                =     1.00')
                    w('     Time step             = %8.2f a.u., %8.4f femto-seconds' % (f['dt'] / 100., f['dt'] / 100. * .0484))
            if f['dt']: w('\n     Entering Dynamics:    iteration =     1\n                           time      =   0.0145 pico-seconds\n')
            if b['econst']:
                w('     Ekin = %14.8f Ry     T = %8.2f K       Etot = %14.8f' % (b['ekin'][0] / 100., b['temp'][0] / 100., b['econst'][0] / 100.))
            if b['cell']:
                u = f['cunit']
                if u == 'alat=': w('CELL_PARAMETERS (alat= %11.8f)' % (b['calat'] / 10.))
                else: w('CELL_PARAMETERS' + blk(u, rng))
                for v in b['cell']: w('%14.9f%14.9f%14.9f' % tuple(x / 100. for x in v))
                w('')
            w('ATOMIC_POSITIONS' + blk(f['punit'], rng))
            fixed = rng.random() < .2
            for s, v in zip(f['sym'], b['x']): w('%-3s%17.9f%14.9f%14.9f' % ((s,) + tuple(x / 100. for x in v)) + ('    0   0   0' if fixed else ''))
            w('\n')
            if b['ekin'] and not b['econst']:
                w('     kinetic energy (Ekin) = %14.8f Ry' % (b['ekin'][0] / 100.))
                w('     temperature           = %14.8f K ' % (b['temp'][0] / 100.))
                w('     Ekin + Etot (const)   = %14.8f Ry' % -3.5)
    w('\n     PWSCF        :     1m15.13s CPU     1m15.83s WALL')
    return '\n'.join(out) + '\n'


LEN = ('coords', 'cell')


def obs(a, v, f=1.0):
    """f: conversion factor which has been applied to the value"""
    if a == 'symbols': return list(v) if v is not None else []
    if a == 'scf_converged': return dict(s=[], d=[1000 * int(bool(v))])
    dv = (lambda x: None if v is None else np.asarray(v, float) / x)
    if a in LEN: return dict(b=nd(dv(f), 1000, 0.02), a=nd(dv(f / BOHR), 1000, 0.02))
    return nd(dv(f), 1000, 0.02)


SCF = ['coords', 'symbols', 'stress', 'etot', 'forces', 'nstep_scf', 'cell', 'natoms', 'nkpoints', 'scf_converged']
MD = ['coords', 'coords_frac', 'symbols', 'stress', 'etot', 'ekin', 'temperature', 'forces', 'nstep_scf', 'cell', 'natoms', 'nkpoints', 'timestep']


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    evs = []
    for rep in range(1 if TIER == 'quick' else 2):
        f = make(sc, rng)
        open('pw.out', 'w').write(text(f, sc, rng))
        evs.append(dict(op='file', f=f))
        for q in range(3):
            cls = 'scf' if sc['kind'] == 'scf' or (q and rng.random() < .3) else ('vcmd' if sc['kind'] == 'vcmd' else 'md')
            C = dict(scf=parse.PwSCFOutputFile, md=parse.PwMDOutputFile, vcmd=parse.PwVCMDOutputFile)[cls]
            use = rng.random() < .6
            kw = {} if use and rng.random() < .5 else dict(use_alat=use)
            tag = dict(tag='unaligned') if sc['kind'] == 'cut' else {}
            attrs = SCF if cls == 'scf' else MD + (['econst'] if cls == 'vcmd' else [])
            p = C('pw.out', **kw)
            base = dict(cls=cls, use=use, **tag)
            mode = rng.choice(['get', 'get', 'parse', 'cont'])
            if mode == 'get':
                order = list(attrs); rng.shuffle(order)
                for a in order + order[:3]:
                    x, v = call(getattr(p, 'get_' + a))
                    evs.append(dict(base, op='get', a=a, exc=x, o=obs(a, v) if not x else []))
            elif mode == 'parse':
                x, _ = call(p.parse)
                evs.append(dict(base, op='all', via='parse', exc=x, **({'as': [dict(a=a, o=obs(a, getattr(p, a))) for a in attrs]} if not x else {})))
            else:
                # containers: values in the units of the library (or the given ones) over the factor
                fac = dict(length=BOHR, energy=RY, forces=RY / BOHR, stress=.1, time=TRYD)
                un = {}
                for k in fac:
                    if rng.random() < .2: un[k] = fac[k] = rng.choice([2., .5, 1.])
                if un: p = C('pw.out', units=un, **kw)
                if rng.random() < .5:
                    x, c = call(getattr(pio, 'read_pw_' + cls), 'pw.out', **dict(kw, **(dict(units=un) if un else {})))
                else:
                    x, c = call(p.get_struct if cls == 'scf' else p.get_traj)
                L = []
                if not x:
                    dim = dict(coords='length', cell='length', etot='energy', forces='forces', stress='stress', timestep='time', ekin='energy')
                    for a in ['symbols', 'natoms', 'etot', 'forces', 'stress', 'cell'] + (['coords'] if f['punit'] != 'crystal' or cls == 'scf' else []) + ([] if cls == 'scf' else ['timestep'] + (['coords_frac'] if f['punit'] == 'crystal' else []) + (['ekin', 'temperature'] if f['blocks'][1]['temp'] else [])):
                        v = getattr(c, a)
                        if a == 'cell' and cls != 'scf' and not f['blocks'][1]['cell']:
                            if v.shape[0] == len([b for b in f['blocks'] if b['k'] == 'pos']) and (v == v[0]).all(): v = v[0]      # broadcast start cell
                        L.append(dict(a=a, o=obs(a, v, fac.get(dim.get(a), 1.0))))
                evs.append(dict(base, op='all', via='cont', exc=x, **{'as': L}))
    return {}, evs


if __name__ == '__main__':
    main(globals())
