import numpy as np
from _base import *
from pwtools.base import FlexibleGetters
from pwtools.decorators import lazyprop


def from_mc(x):
    return dict(x, lst=False, lazy=False)


def gen(rng, tier):
    res = []
    for k in range(250 if tier == 'quick' else 3000):
        names = ['foo', 'bar', '_priv', 'x1', '_foo_raw', 'long_name'][:rng.randint(2, 6)]
        order = rng.sample(names, len(names))
        g, init = {}, {}
        for i, a in enumerate(order):
            deps = [d for d in order[:i] if rng.random() < .5]
            rng.shuffle(deps)
            kind = 'dep' if deps and rng.random() < .75 else rng.choice(['const', 'const', 'empty'])
            g[a] = dict(kind=kind, v=rng.choice([0, 0, 1, -3, 11]), deps=deps if kind == 'dep' else [])
            init[a] = dict(t='i', v=rng.choice([0, 4])) if rng.random() < .15 else dict(t='none', v=0)
        ops = []
        for j in range(rng.randint(2, 10)):
            op = rng.choice(['try', 'check', 'assert_set', 'is_set', 'assert', 'return', 'set_all', 'raw_return', 'set'])
            many = rng.random() < .35 and op in ('try', 'check', 'assert_set', 'is_set', 'assert')
            at = rng.sample(names, rng.randint(0 if op != 'set_all' else 1, len(names))) if many or op == 'set_all' else [rng.choice(names)]
            if op == 'raw_return':
                if '_foo_raw' not in names: continue
                at = ['_foo_raw']
            o = dict(op=op, attrs=at, lst=many)
            if op == 'set_all':
                o['lst'] = rng.random() < .5
                if not o['lst']: o['attrs'] = names
            if op == 'set': o['v'] = rng.choice([0, 99])
            ops.append(o)
        res.append(dict(g=g, init=init, ops=ops, lst=True, lazy=False))
        if k % 5 == 0:
            gg = {a: d for a, d in g.items()}
            nn = {a: dict(t='none', v=0) for a in g}
            res.append(dict(g=gg, init=nn, ops=[dict(op='lazy', attrs=[rng.choice(names)]) for j in range(rng.randint(2, 8))], lst=False, lazy=True))
    return res


def make(sc, runs):
    ns = {}
    for a, d in sc['g'].items():
        if sc['lazy']:
            def f(self, a=a, d=d):
                runs[a] += 1
                if d['kind'] == 'const': return d['v']
                if d['kind'] == 'empty': return None
                vals = [getattr(self, x) for x in d['deps']]
                return None if any(v is None for v in vals) else d['v'] + 2 * sum(vals)
            f.__name__ = a
            ns[a] = lazyprop(f)
            continue

        def get(self, a=a, d=d):
            runs[a] += 1
            if d['kind'] == 'const':
                return d['v']
            if d['kind'] == 'empty':
                return None
            if len(d['deps']) == 1:
                ok = self.check_set_attr(d['deps'][0])
            else:
                ok = self.check_set_attr_lst(d['deps'])
            return d['v'] + 2 * sum(getattr(self, x) for x in d['deps']) if ok else None
        ns[('_get' if a.startswith('_') else 'get_') + a] = get
    if sc['lazy']:
        return type('L', (), ns)()
    ns['__init__'] = lambda self: self.set_attr_lst(list(sc['g']))
    return type('G', (FlexibleGetters,), ns)()


def ob(v):
    if v is None: return dict(t='none', v=0)
    if isinstance(v, int) and not isinstance(v, bool): return dict(t='i', v=v)
    return dict(t='?', v=0)


def run(sc, work):
    runs = {a: 0 for a in sc['g']}
    o = make(sc, runs)
    if not sc['lazy']:
        for a, v in sc['init'].items():
            if v['t'] != 'none':
                setattr(o, a, v['v'])
    evs = []
    for op in sc['ops']:
        e = dict(op=op['op'], attrs=op['attrs'], v=op.get('v', 0))
        for a in runs: runs[a] = 0
        at, lst = op['attrs'], op.get('lst', False)
        k = op['op']
        res = None
        if k == 'set':
            setattr(o, at[0], op['v']); exc = ''
        elif k == 'lazy':
            exc, res = call(getattr, o, at[0])
        elif k == 'set_all':
            exc, res = call(o.set_all, at) if lst else call(o.set_all)
        elif k == 'return':
            exc, res = call(o.get_return_attr, at[0])
        elif k == 'raw_return':
            exc, res = call(o.raw_return, 'foo')
        else:
            name = {'try': 'try_set_attr', 'check': 'check_set_attr', 'assert_set': 'assert_set_attr', 'is_set': 'is_set_attr', 'assert': 'assert_attr'}[k]
            exc, res = call(getattr(o, name + '_lst'), at) if lst else call(getattr(o, name), at[0])
        e['exc'] = exc
        e['res'] = res if isinstance(res, bool) else False
        e['rv'] = ob(res)
        if sc['lazy']:
            e['vals'] = {a: ob(o.__dict__.get(a)) for a in sc['g']}
        else:
            e['vals'] = {a: ob(getattr(o, a, None)) for a in sc['g']}
        e['runs'] = dict(runs)
        evs.append(e)
    return dict(kind='syn', g=sc['g'], init=sc['init']), evs


if __name__ == '__main__':
    main(globals())
