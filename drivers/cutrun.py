"""cut-cpmd.sh / cut-cp2k.sh on written run directories (C29)."""
import subprocess
from _base import *

WORKERS = 8
BIN = os.environ['PWV_BIN']
CPMD = ['CELL', 'ENERGIES', 'STRESS', 'TRAJECTORY', 'FTRAJECTORY', 'TRAJEC.xyz']
CP2K = ['PROJECT-1.cell', 'PROJECT-1.ener', 'PROJECT-1.stress', 'PROJECT-frc-1.xyz', 'PROJECT-pos-1.xyz', 'PROJECT-vel-1.xyz']


def from_mc(x):
    h = x['start'] * 3 + x['n'] + x['iv'] * 5 + x['hdr'] + sum((i + 1) * 7 * c['step'] + c['sim'] for i, c in enumerate(x['cuts']))
    if h % (71 if TIER == 'quick' else 131): return []
    return dict(code='cp2k' if h % 2 else 'cpmd', start=x['start'], n=x['n'], iv=x['iv'], cuts=x['cuts'], seed=h, nat=1 + h % 3)


def gen(rng, tier):
    out = []
    for i in range(60 if tier == 'quick' else 700):
        start = rng.choice([0, 1, 1, 2, 5, 10, 11, 4135, 8390, 99995, 999990])
        n = rng.choice([1, 2, 3, 5, 11, 12, 25, 40])
        iv = rng.choice([1, 1, 2, 3, 5, 10])
        S = lambda: rng.choice([start, start + 1, start + rng.randint(0, n * iv), start + rng.randint(0, n), start + (n - 1) * iv, start + n * iv, max(0, start - 1), rng.randint(0, start + n), 1, 2, 10])
        cuts = [dict(step=S(), sim=rng.random() < .12, noinpl=rng.random() < .08, auto=rng.random() < .25) for k in range(rng.choice([1, 1, 1, 2, 3]))]
        out.append(dict(code=rng.choice(['cpmd', 'cp2k']), start=start, n=n, iv=iv, cuts=cuts, seed=rng.randrange(10**6), nat=rng.choice([1, 2, 2, 3, 5, 10, 12])))
    return out


def files(sc, rng):
    """-> list of (name, listed, chunks, lines)"""
    nat = sc['nat']
    out = []
    u = lambda: '%.8f' % rng.uniform(-20, 20)
    names = CPMD if sc['code'] == 'cpmd' else CP2K
    for nm in names:
        if rng.random() < .15: continue
        iv = rng.choice([1, sc['iv'], sc['iv']])
        if sc['code'] == 'cpmd' and nm.endswith('TRAJECTORY'): pass
        steps = [sc['start'] + k * iv for k in range(sc['n'])]
        ch, L = [], []
        def add(s, lines):
            ch.append(dict(s=s, n=len(lines))); L.extend(lines)
        if sc['code'] == 'cp2k' and not nm.endswith('xyz'):
            add(-1, ['#   Step   Time [fs]            xx [bar]   %d ' % rng.randint(0, 99)])
        for s in steps:
            if nm == 'CELL': add(s, ['   CELL PARAMETERS at Step:%12d' % s] + ['%15s%15s%15s%20s%14s%14s' % tuple(u() for k in range(6)) for j in range(3)])
            elif nm == 'STRESS': add(s, ['   TOTAL STRESS TENSOR (kB): Step:%12d' % s] + ['%26s%20s%20s' % tuple(u() for k in range(3)) for j in range(3)])
            elif nm == 'ENERGIES': add(s, ['%10d%14s%14s%10d%20s' % (s, u(), u(), rng.randint(0, 999), u())])
            elif nm in ('TRAJECTORY', 'FTRAJECTORY'):
                if s != steps[0] and rng.random() < .1: add(-1, ['  <<<<<<  NEW DATA  >>>>>>'])
                add(s, [' %6d' % s + ''.join('%24s' % u() for k in range(6 if nm[0] == 'T' else 9)) for j in range(nat)])
            elif nm == 'TRAJEC.xyz': add(s, ['%12d' % nat, ' STEP:%12d' % s] + ['%2s' % rng.choice(['Al', 'N']) + ''.join('%14s' % u() for k in range(3)) for j in range(nat)])
            elif nm.endswith('.xyz'): add(s, ['%8d' % nat, ' i = %8d, time = %12.3f, E = %20.10f' % (s, s * .5, rng.uniform(-99, 0))] + [' %2s' % rng.choice(['Al', 'N']) + ''.join('%20s' % u() for k in range(3)) for j in range(nat)])
            elif nm.endswith('.ener'): add(s, ['%10d%20.6f' % (s, s * .5) + ''.join('%20s' % u() for k in range(5))])
            else: add(s, ['%8d%12.3f' % (s, s * .5) + ''.join('%20s' % u() for k in range(9))])
        out.append((nm, True, ch, L))
    for nm in rng.sample(['GEOMETRY', 'cpmd.out', 'PROJECT-1.log', 'TRAJECTORY.old', 'PROJECT-pos-1.xyz.gz'], 2):
        L = ['%10d %s' % (sc['start'] + k, u()) for k in range(3)]
        out.append((nm, False, [dict(s=sc['start'] + k, n=1) for k in range(3)], L))
    return out


def tree(d):
    return {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    os.mkdir('d')
    F = files(sc, rng)
    for nm, l, ch, L in F: open('d/' + nm, 'w').write(''.join(x + '\n' for x in L))
    evs = [dict(op='files', fs=[dict(name=nm, listed=l, ch=ch) for nm, l, ch, L in F])]
    for c in sc['cuts']:
        before = tree('d')
        dr = rng.choice(['d', 'd/', './d', os.path.abspath('d')])
        args, aux = [], []
        noinpl = bool(c.get('noinpl')) and sc['code'] == 'cpmd' and not c['sim']
        if c['sim']: args.append('-s')
        if noinpl: args.append('--not-inplace')
        pos = [dr, str(c['step'])]
        if sc['code'] == 'cp2k' and c.get('auto') and c['step'] > 0:
            open('d/PROJECT-1.restart', 'w').write(' # Version information\n &MOTION\n   &MD\n     ENSEMBLE  NPT_F\n     STEPS  %d\n     STEP_START_VAL  %d\n   &END MD\n &END MOTION\n' % (c['step'] + 100, c['step'] - 1))
            before['PROJECT-1.restart'] = open('d/PROJECT-1.restart').read()
            pos = pos[:1]
        elif os.path.exists('d/PROJECT-1.restart'): os.remove('d/PROJECT-1.restart'); before.pop('PROJECT-1.restart', None)
        p = subprocess.run([os.path.join(BIN, 'cut-%s.sh' % sc['code'])] + (args + pos if rng.random() < .7 else pos + args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50)
        txt = p.stdout.decode('latin1')
        after = tree('d')
        A = []
        for nm, l, ch, L in F:
            old, new = before[nm].splitlines(True), after.get(nm, '\0').splitlines(True)
            kept = len(new) if old[:len(new)] == new else -1
            baks = [n for n in after if n.startswith(nm + '.') and n not in [f[0] for f in F]]
            fresh = [n for n in baks if after[n] != before.get(n)]
            same = any(after[n] == before[nm] for n in (fresh or baks))
            bak = 'same' if same else 'bad' if fresh else 'none'
            k = 0
            for x in ch:
                if x['s'] >= c['step']: break
                k += x['n']
            A.append(dict(kept=kept, bak=bak, fresh=bool(fresh), out=(not noinpl) or ''.join(old[:k]) in txt))
        exp = set(before)
        for nm, l, ch, L in F:
            if l: exp |= {n for n in after if n.startswith(nm + '.')}
        evs.append(dict(op='cut', step=c['step'], sim=c['sim'], noinpl=noinpl, rc=p.returncode, after=A, new=sorted(set(after) - exp) + sorted(n for n in before if n not in after)))
        # the next cut works on what is left
        F = [(nm, l, ch, L) for nm, l, ch, L in F]
        if not c['sim'] and not noinpl:
            G = []
            for (nm, l, ch, L), a in zip(F, A):
                if l:
                    k, n = [], 0
                    for x in ch:
                        if n + x['n'] > a['kept']: break
                        k.append(x); n += x['n']
                    ch = k
                G.append((nm, l, ch, L))
            F = G
        if any(a['kept'] < 0 for a in A): break
    return {}, evs


if __name__ == '__main__':
    main(globals())
