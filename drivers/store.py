import hashlib, os
import numpy as np
from _base import *
from pwtools import io, crys, base
from pwtools.crys import Structure, Trajectory
import alias
import pickle_cls


def enc(v):
    """canonical encoding: type, shape and exact content"""
    if isinstance(v, str): return 's:' + v
    if isinstance(v, bytes): return 'y:' + v.decode('latin1')
    if isinstance(v, (list, tuple)) and v and isinstance(v[0], str): v = np.array(v, dtype=object)
    a = np.asarray(v)
    if a.dtype.kind == 'O':
        return 'O%s%s' % (list(a.shape), [enc(x) if isinstance(x, (str, bytes)) else repr(x) for x in a.ravel()])
    return '%s%s%s' % (a.dtype.str, list(a.shape), hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest())


def mkval(rng):
    A = lambda *s: np.array([rng.choice([rng.uniform(-1e3, 1e3), rng.randint(-9, 9), 1e-300, float('inf'), -0.0]) for i in range(int(np.prod(s)))], dtype=float).reshape(s)
    sh = tuple(rng.choice([0, 1, 2, 3]) for i in range(rng.randint(1, 3)))
    return rng.choice([
        lambda: rng.randint(-10**12, 10**12), lambda: rng.uniform(-1, 1), lambda: rng.choice([True, False]),
        lambda: rng.choice(['', 'abc', 'two words', 'äöü µ', 'x\ny', '123', 'ünï' * 20]),
        lambda: A(*sh), lambda: A(*sh).T, lambda: (A(*sh) * 0 + 3).astype(rng.choice(['i4', 'i8', 'u1', 'f4', 'bool', 'c16'])) if True else 0,
        lambda: np.float32(rng.uniform(-1, 1)), lambda: np.array(rng.uniform(-1, 1)), lambda: 1 + 2j,
        lambda: [1, 2, rng.randint(0, 9)], lambda: [[1.5, 2.0], [rng.uniform(0, 1), 0]], lambda: A(6)[::2], lambda: ['a', 'bcd', 'ä'],
        lambda: np.asfortranarray(A(2, 3)), lambda: np.arange(rng.randint(0, 2000)),
    ])()


def spell(rng, k):
    s = '/'.join(k)
    return rng.choice(['', '/', '/', '//']) + s + rng.choice(['', '', '/'])


def from_mc(x):
    # append: said explicitly or by not giving a mode
    c = sum(3 * i + j for j, h in enumerate(x['hist']) for i in h['d'])
    return dict(kind='h5', hist=[dict(op='write', fn='f', mode='default' if h['mode'] == 'a' and (c + j) % 2 else h['mode'], keys=[x['keys'][i - 1] for i in h['d']]) for j, h in enumerate(x['hist'])], seed=len(str(x)))


NAMES = ['a', 'b', 'c1', 'x y', 'Zz', 'ab', 'a.b', 'ü', '0', 'struct']


def gen(rng, tier):
    out = []
    for i in range(120 if tier == 'quick' else 800):
        hist = []
        for j in range(rng.randint(1, 5)):
            fn = rng.choice(['f', 'f', 'g.h5'])
            keys = [[rng.choice(NAMES[:rng.choice([2, 3, 10])]) for l in range(rng.choice([1, 1, 2, 3]))] for m in range(rng.randint(0, 4))]
            if hist and rng.random() < .25: keys = [k for k in rng.choice(hist)['keys'] if rng.random() < .7]
            hist.append(dict(op='write', fn=fn, mode=rng.choice(['a', 'a', 'w', 'default']), keys=keys))
        out.append(dict(kind='h5', hist=hist, seed=rng.randrange(10**6)))
    for i in range(80 if tier == 'quick' else 500):
        out.append(dict(kind='pk', seed=rng.randrange(10**6), n=rng.randint(1, 5)))
    return out


def img(o):
    return [type(o).__name__] + [[k, alias.dig(v)] for k, v in sorted(o.__dict__.items(), key=lambda t: str(t[0]))] + alias.dig(o) if isinstance(o, Structure) else \
        [type(o).__name__] + [[k, alias.dig(v)] for k, v in sorted(o.__dict__.items())]


def ents(dct, names=False):
    return [dict(k=k, v=enc(v)) for k, v in dct.items()]


def run(sc, work):
    rng = random.Random(sc['seed'])
    os.chdir(work)
    evs, held = [], []
    if sc['kind'] == 'h5':
        files = []
        for h in sc['hist']:
            dct, spec, used = {}, [], set()
            for k in h['keys']:
                s, v = spell(rng, k), mkval(rng)
                if s in dct: continue
                dct[s] = v; spec.append(dict(k=k, v=enc(v)))
            kw = {} if h['mode'] == 'default' else dict(mode=h['mode'])
            exc = ''
            try:
                io.write_h5(h['fn'], dct, **kw)
            except Exception as e:
                held.append(e)          # an interactive session keeps the traceback alive
                exc = type(e).__name__
            if h['fn'] not in files: files.append(h['fn'])
            raw = {}
            import h5py
            x, fh = call(h5py.File, h['fn'], 'r')
            after = []
            if exc and fh is not None:
                def g(name, obj):
                    if isinstance(obj, h5py.Dataset):
                        v = obj[()]
                        after.append(dict(k=name.strip('/').split('/'), v=enc(obj.asstr()[()] if h5py.check_string_dtype(obj.dtype) else v)))
                fh.visititems(g)
            if fh is not None: fh.close()
            evs.append(dict(op='write', fn=h['fn'], mode='w' if h['mode'] == 'w' else 'a', dct=spec, exc=exc, after=after))
            for f in files:
                x, r = call(io.load_h5 if len(evs) % 5 == 0 else io.read_h5, f)
                evs.append(dict(op='read', fn=f, exc=x, ents=ents(r) if r is not None else []))
        return {}, evs
    # pickle histories
    written = []
    objs = []
    for j in range(sc['n']):
        kind = rng.choice('STP')
        o = alias.mk(rng, kind) if kind in 'ST' else pickle_cls.make(rng)
        objs.append(o)
        if rng.random() < .3 and kind == 'P': o.try_set_attr('b')
        fn = rng.choice(['p1', 'p2.pk', 'sub/dir/p3', './p4'])
        a = img(o)
        if rng.random() < .8 or '/' in fn and not os.path.isdir(os.path.dirname(fn)):
            x, _ = call(o.dump, fn)
        else:
            x, _ = call(o.dump, fn, mkdir=False)
        evs.append(dict(op='dump', fn=fn, exc=x, obj=a, obj2=img(o)))
        if fn not in written: written.append(fn)
        if rng.random() < .5: alias.mutate(o)
        if rng.random() < .3: alias.mutate(rng.choice(objs))
        for f in written:
            how = rng.choice(['read_pickle', 'read_pickle', 'load'])
            x, r = call(io.cpickle_load if len(evs) % 5 == 0 else io.read_pickle, f)
            if how == 'load' and r is not None:
                y = type(r).__new__(type(r)) if not isinstance(r, Structure) else type(r)(set_all_auto=False)
                x, _ = call(y.load, f)
                if isinstance(r, Structure):
                    evs.append(dict(op='load', fn=f, exc=x, obj=img(y), methods=True))
                    continue
                r = y
            ok = False
            if r is not None:
                if isinstance(r, Structure):
                    z, c = call(r.copy)
                    ok = z == '' and img(c)[0] == img(r)[0]
                else:
                    z, c = call(r.try_set_attr, 'b')
                    ok = z == ''
                r = io.read_pickle(f) if how == 'read_pickle' else r
            evs.append(dict(op='load', fn=f, exc=x, obj=img(r) if r is not None and how == 'read_pickle' else img(io.read_pickle(f)) if r is not None else [], methods=ok))
    return {}, evs


if __name__ == '__main__':
    main(globals())
