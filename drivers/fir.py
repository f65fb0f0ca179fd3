import resource
import numpy as np
from _base import *
from pwtools.signal import FIRFilter

WORKERS = 8
# a wrong design may ask for any number of taps
resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def design(*a, **k):
    try:
        return FIRFilter(*a, **k)
    except MemoryError:
        raise OverflowError


NYQ = [1.0, 50.0, .5, 1 / 3, 13.01, 1e-9, 4.1e13]
LA = [1, .7, 1 / 3, 1e-9, 1e7]


def from_mc(x):
    return dict(ops=x, seed=sum((i + 1) * (o.get('ntaps', 3) + sum(o.get('cut', [5])) + len(o.get('mode', ''))) for i, o in enumerate(x)))


def gen(rng, tier):
    res = []
    for k in range(70 if tier == 'quick' else 900):
        ops = []
        for i in range(rng.randint(1, 4)):
            m = rng.choice(['lowpass', 'highpass', 'bandpass', 'bandstop'])
            c = sorted(rng.sample(range(60, 941), 2)) if m.startswith('band') else [rng.randint(60, 940)]
            if rng.random() < .05: m = rng.choice(['lowstop', 'Lowpass', ''])
            if rng.random() < .05: c = c[:1] * (3 - len(c)) if len(c) == 1 else c[:1]
            if rng.random() < .5:
                kw = dict(ntaps=rng.choice([3, 5, 8, 13, 20, 31, 44, 45, 64, 101]), ripple=0, width=0)
            else:
                kw = dict(ntaps=0, ripple=rng.choice([30, 40, 50, 60, 80]), width=rng.choice([60, 80, 100, 150, 200]))
                if rng.random() < .06: kw[rng.choice(['ripple', 'width'])] = 0
            ops.append(dict(op='design', mode=m, cut=c, **kw))
            for j in range(rng.randint(0, 3)):
                ops.append(dict(op='apply', id=rng.randint(1, len(ops))))
        res.append(dict(ops=ops, seed=rng.randrange(10**6)))
    return res


def gain(f, x, nt):
    """Amplitude of the answer to a sine wave of frequency x (1000 = Nyquist)"""
    t = np.arange(6 * nt + 300)
    a = np.cos(np.pi * x / 1000.0 * t + (0 if x in (0, 1000) else .4))
    b = f(a)[nt:]
    t = t[nt:]
    if x in (0, 1000):
        return float(np.abs(np.mean(b * np.cos(np.pi * x / 1000.0 * t))))
    m = np.array([np.cos(np.pi * x / 1000.0 * t), np.sin(np.pi * x / 1000.0 * t)]).T
    c = np.linalg.lstsq(m, b, rcond=None)[0]
    return float(np.hypot(*c))


def run(sc, work):
    rng = random.Random(sc['seed'])
    R, evs, fs = rng.choice, [], {}
    nyq = R(NYQ)
    for no, o in enumerate(sc['ops'], 1):
        o = dict(o)
        if o['op'] == 'design':
            cut = [x / 1000.0 * nyq for x in o['cut']]
            kw = {}
            if o['ntaps']: kw['ntaps'] = o['ntaps']
            if o['ripple']: kw['ripple'] = o['ripple']
            if o['width']: kw['width'] = o['width'] / 1000.0 * nyq
            if o['ntaps']: kw['window'] = R(['hamming', 'hann', 'blackman', 'hamming'])
            if kw.get('window') == 'hamming' and rng.random() < .5: kw.pop('window')
            if o['mode'] != 'lowpass' or rng.random() < .5: kw['mode'] = o['mode']
            cc = (cut[0] if rng.random() < .5 and o['mode'] in ('lowpass', 'highpass') else R([cut, np.array(cut)])) if len(cut) == 1 else R([cut, tuple(cut), np.array(cut)])
            if len(cut) == 2 and o['mode'] not in ('bandpass', 'bandstop'): continue      # several bands: not modelled
            e, f = call(design, cc, nyq, **kw)
            o.update(id=no, exc=e, n=0, taps=[], taps9=[], w=[], gains=[], edges=[], hs=[])
            if not e and len(f.taps) > 2000: e = o['exc'] = 'far too many taps'
            if not e:
                fs[no] = f
                n = len(f.taps)
                gs = sorted({0, 1000} | {rng.randint(1, 999) for i in range(6)} | {x + d for x in o['cut'] for d in (-200, -100, 100, 200) if 0 < x + d < 1000})
                ix = sorted(rng.sample(range(512), 5))
                o.update(n=int(f.ntaps), taps=[snapr(x, 10**7) for x in f.taps], taps9=[snapr(x, 10**9) for x in f.taps],
                         w=[snap(x / nyq * 512) for x in f.w], gains=[[x, snapr(gain(f, x, n), 10**6)] for x in gs],
                         edges=[snapr(gain(f, x, n), 10**6) for x in o['cut']],
                         hs=[[i, snapr(abs(f.h[i]), 10**6), snapr(gain(f, i / 512 * 1000, n), 10**6)] for i in ix])
            evs.append(o)
        elif o['id'] in fs:
            f = fs[o['id']]
            shape = R([(1,), (4,), (15,), (40,), (2, 9), (9, 2), (1, 12), (2, 3, 7), (7, 2, 2)])
            ax = rng.randrange(len(shape))
            a = np.array([rng.randint(-3, 3) for i in range(int(np.prod(shape)))]).reshape(shape)
            la = R(LA)
            x = a * la if la != 1 or rng.random() < .5 else a
            if rng.random() < .3: x = np.asfortranarray(x)
            b = x.copy()
            axa = ax - len(shape) if rng.random() < .4 else ax
            e, r = call(f, x, **({} if axa == -1 and rng.random() < .5 else dict(axis=axa)))
            def ch(y): return np.moveaxis(np.asarray(y), ax, -1).reshape(-1, shape[ax]).tolist()
            ok = not e and np.shape(r) == shape
            evs.append(dict(op='apply', id=o['id'], exc=e, shape=list(shape), oshape=list(np.shape(r)) if not e else [], x=ch(a),
                            y=[[snapr(v / la, 10**7) for v in c] for c in ch(r)] if ok else [], kept=bool(np.array_equal(x, b))))
            m = R([1, 5, 30, 120])
            x = np.zeros(m); p = rng.randrange(m); x[p] = la
            e, r = call(f, x)
            evs.append(dict(op='impulse', id=o['id'], exc=e, pos=p, y=[snapr(v / la, 10**9) for v in np.asarray(r)] if not e else []))
    return dict(nyq=repr(nyq)), evs


if __name__ == '__main__':
    main(globals())
