import io, re, sys, time
from _base import *

CLK = [0]
_fake = lambda *a: CLK[0]
for n in ('time', 'perf_counter', 'monotonic', 'process_time'):
    setattr(time, n, _fake)
from pwtools.timer import TagTimer


def from_mc(x):
    return dict(silent=False, ops=[dict(op=o, tag=t, clk=3 * i * i) for i, (o, t) in enumerate(x)])


def gen(rng, tier):
    res = []
    for k in range(60 if tier == 'quick' else 400):
        ops, clk = [], rng.choice([0, 0, 5, -7])
        tags = ['a', 'b', 'outer loop', 'x%d'][:rng.randint(1, 4)]
        for i in range(rng.randint(3, 40)):
            ops.append(dict(op=rng.choice(['t', 't', 't', 'pt', 'pt', 'p']), tag=rng.choice(tags), clk=clk,
                            msg=rng.choice(['', 'm1', 'some text'])))
            clk += rng.choice([0, 1, 1, 2, 17, 1000])
        res.append(dict(silent=rng.random() < .2, ops=ops))
    return res


def run(sc, work):
    tt = TagTimer(silence=sc['silent'])
    evs = []
    for o in sc['ops']:
        CLK[0] = o['clk']
        buf, keep = io.StringIO(), sys.stdout
        sys.stdout = buf
        msg = o.get('msg', '')
        try:
            if o['op'] == 't':
                exc, _ = call(tt.t, o['tag'])
            elif o['op'] == 'pt':
                exc, _ = call(tt.pt, o['tag'], msg)
            else:
                exc, _ = call(tt.p, msg)
        finally:
            sys.stdout = keep
        out = [l for l in buf.getvalue().split('\n') if l.strip()]
        nums = re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', out[-1]) if out else []
        evs.append(dict(op=o['op'], tag=o['tag'], clk=o['clk'], exc=exc, nout=len(out),
                        dur=snap(nums[-1]) if nums else INEXACT,
                        hastag=bool(out) and o['tag'] in out[-1], hasmsg=bool(out) and msg in out[-1]))
    return dict(silent=sc['silent']), evs


if __name__ == '__main__':
    main(globals())
