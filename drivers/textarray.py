import gzip, os, io as _io
import numpy as np
from _base import *
from pwtools import arrayio as aio


def from_mc(x):
    h = sum(x['shape']) * 7 + x['axis']
    return dict(shape=x['shape'], axis=x['axis'], seed=h)


def gen(rng, tier):
    out = []
    for i in range(250 if tier == 'quick' else 1500):
        nd_ = rng.choice([1, 2, 3, 3])
        out.append(dict(shape=[rng.choice([1, 1, 2, 3, 4, 7]) for k in range(nd_)], axis=rng.choice([-3, -2, -1, 0, 1, 2]) if nd_ == 3 else rng.choice([-1, 0]), seed=rng.randrange(10**6)))
    return out


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    evs = []
    fn = rng.choice(['a.txt', 'dir.x/a.dat'])
    if '/' in fn: os.makedirs(os.path.dirname(fn))
    table = {}
    shape, axis = sc['shape'], sc['axis']
    for rep in range(2):
        n = int(np.prod(shape))
        kind = rng.choice(['float', 'float', 'int', 'special'])
        vals = []
        while len(vals) < n:
            v = rng.choice([rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300), rng.uniform(-9, 9), float(rng.randint(-10**6, 10**6))]) if kind != 'int' else float(rng.randint(-10**9, 10**9))
            if v not in table.values(): vals.append(v); table[len(table)] = v
        if kind == 'special' and n > 1:
            vals[0] = float('inf')
            if vals[0] not in table.values(): table[len(table)] = vals[0]
        key = {v: k for k, v in table.items()}
        enc = lambda a: [key.get(float(v), -1) for v in np.asarray(a).ravel()]
        arr = np.array(vals).reshape(shape)
        if kind == 'int': arr = arr.astype(int)
        if rng.random() < .3: arr = np.asfortranarray(arr)
        header = rng.random() < .75
        kw = {}
        if axis != -1 or rng.random() < .5: kw['axis'] = axis
        if not header: kw['header'] = False
        x, _ = call(aio.writetxt, fn, arr, **kw)
        raw = open(fn).read() if os.path.exists(fn) else ''
        rows = []
        for l in raw.splitlines():
            if l.startswith('#') or not l.strip(): continue
            try: rows.append([key.get(float(t), -1) for t in l.split()])
            except ValueError: rows.append([-2])
        evs.append(dict(op='write', exc=x, arr=dict(s=list(shape), d=enc(arr)), axis=axis, header=header, rows=rows))
        hdr = header
        hc = '#'
        for k in range(rng.randint(2, 4)):
            # tamper: things which must not matter
            lines = raw.splitlines()
            t = rng.choice(['none', 'none', 'section', 'option', 'tail', 'blank', 'noheader', 'char'])
            body = [l for l in lines if not l.startswith(hc)]
            head = [l for l in lines if l.startswith(hc)]
            if t == 'section' and hdr: lines = head + [hc + ' [meta%i]' % k, hc + ' created = today %i' % k] + body
            elif t == 'option' and hdr: lines = [hc + ' [first]', hc + ' unit = eV'] + head + body if not any('[first]' in l for l in head) else lines
            elif t == 'tail': lines = lines + ['']
            elif t == 'blank' and hdr: lines = head + [''] + body
            elif t == 'noheader':
                lines = body; hdr = False
            elif t == 'char' and hdr and hc == '#':
                hc = '@@'; lines = [l.replace('#', '@@', 1) if l.startswith('#') else l for l in lines]
            if len([l for l in lines if l.startswith(hc)]) > 19: lines = raw.splitlines()
            raw = '\n'.join(lines) + '\n'
            open(fn, 'w').write(raw)
            evs.append(dict(op='noheader' if t == 'noheader' else 'tamper', what=t))
            kw = {}
            sh, ax = [], 99
            how = rng.choice(['auto', 'auto', 'both', 'axis', 'shape', 'other']) if hdr else rng.choice(['both', 'both', 'both', 'none', 'shape'])
            if how in ('both', 'shape', 'other'): sh = list(shape)
            if how in ('both', 'axis', 'other'): ax = axis
            if how == 'other' and len(shape) == 3:
                ax = rng.choice([0, 1, 2, -1, -2, -3])
                if rng.random() < .5: rng.shuffle(sh)
            cm = False
            if (how in ('both', 'other')) and rng.random() < .5:
                # explicit shape and axis: any comment lines are ignored
                cm = True
                c = hc if hdr else rng.choice(['#', '@@', '<<<'])
                ls = raw.splitlines()
                for q in range(rng.randint(1, 3)): ls.insert(rng.randint(0, len(ls)), c + ' free text, not = an [option')
                src = '\n'.join(ls) + '\n'
                if c != '#' or rng.random() < .5: kw['comments'] = c
            else:
                src = raw
            if hdr and hc != '#': kw['comments'] = hc; kw['header_comment'] = hc
            if cm and hdr is False and kw.get('comments') not in (None, '#'): pass
            if sh: kw['shape'] = tuple(sh) if rng.random() < .7 else list(sh)
            if ax != 99: kw['axis'] = ax
            open('src.txt', 'w').write(src)
            arg = rng.choice(['name', 'fh', 'sio', 'gz'])
            if arg == 'name': a = 'src.txt'
            elif arg == 'fh': a = open('src.txt')
            elif arg == 'gz':
                a = 'src.txt.gz'
                with gzip.open(a, 'wb') as fh: fh.write(src.encode())
            else: a = _io.StringIO(src)
            x, r = call(aio.readtxt, a, **kw)
            if arg == 'fh': a.close()
            evs.append(dict(op='read', exc=x, shape=sh, axis=ax, arr=dict(s=[int(v) for v in r.shape], d=enc(r)) if r is not None else dict(s=[], d=[]), opts=str(kw) + arg))
        shape = [rng.choice([1, 2, 3, 5]) for k in range(rng.choice([1, 2, 3]))]
        axis = rng.choice([-1, 0, 1, 2, -2]) if len(shape) == 3 else -1
    return {}, evs


if __name__ == '__main__':
    main(globals())
