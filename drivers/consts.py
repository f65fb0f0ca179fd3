import math
from _base import *
from pwtools import constants as C, atomic_data as A

FUND = ['h', 'hbar', 'm0', 'e0', 'c0', 'a0', 'Eh', 'kb', 'avo', 'amu', 'R', 'alpha', 'mu0', 'eps0', 'th', 'tryd']
ALL = 'eV e0 Eh Ha Hartree Eryd Ry Rydberg h hplanck Ry_to_eV Ry_to_Ha Ha_to_eV J_to_eV Ry_to_J J_to_rcm Ry_to_rcm rcm_to_Hz Ry_to_Hz a0 Bohr a0_to_A Bohr_to_Ang Ang Angstrom fs ps th thart tryd amu m0 GPa eV_by_Ang3_to_Pa eV_by_Ang3_to_GPa dyn hbar c0 kb avo R alpha mu0 eps0'.split()


def from_mc(x):
    return dict(frm=x['from'], path=x['path'])


def gen(rng, tier):
    return [dict(frm='J', path=[], z=z) for z in range(1, len(A.symbols))] + [dict(frm='J', path=[], z=0)]


def ln(x): return int(round(1e6 * math.log(x))) if x > 0 and x < 1e300 else 2 * 10**9


def dig(x):
    m, e = ('%.8e' % x).split('e')
    return [int(m.replace('.', '')), int(e)]


def run(sc, work):
    evs = []
    f = 1.
    for no, p in enumerate(sc['path']):
        x, v = call(getattr, C, p['e'])
        if not x: f = f / v if p['inv'] else f * v
        evs.append(dict(p, op='convert', no=no, ln=0 if x else ln(f), exc=x))
        if x: break
    if sc.get('z'):
        z = sc['z']
        x, r = call(lambda: dict(sym=A.symbols[z], back=A.symbols[A.numbers[A.symbols[z]]], number=A.numbers[A.symbols[z]], number2=A.pt[A.symbols[z]]['number'], mass=int(round(A.masses[z] * 1000)),
                                 rad=int(round(A.covalent_radii[z] * 100)), same=bool(A.pt[A.symbols[z]]['mass'] == A.masses[z] and A.pt[A.symbols[z]]['cov_rad'] == A.covalent_radii[z])))
        evs.append(dict(r or {}, op='element', z=z, exc=x))
    elif 'z' in sc:
        x, r = call(lambda: [{k: ln(getattr(C, k)) for k in FUND}, {k: dig(getattr(C, k)) for k in ALL}])
        evs.append(dict(op='funds', val=r[0] if r else {}, dig=r[1] if r else {}, exc=x))
    if sc.get('z') == 0:
        x, r = call(lambda: dict(lens=[len(A.symbols), len(A.masses), len(A.covalent_radii)], names=len(set(A.numbers) & set(A.pt))))
        evs.append(dict(r or {}, op='tables', exc=x))
    return dict(unit=sc['frm'], ln=0), evs


if __name__ == '__main__':
    main(globals())
