import numpy as np
from _base import *
from pwtools import comb, sql, common


def leaf(v): return dict(k='leaf', v=v, c=[])
def node(c): return dict(k='seq', v='', c=c)


def from_mc(x):
    return [dict(op='loops', lists=x, flat=f, cont=['list'] * len(x)) for f in (False, True)]


def rleaf(rng):
    return leaf(rng.choice(['i:%d' % rng.randint(-3, 9), 's:' + rng.choice(['', 'a', 'abc', '[1]', 'a b']), 'f:' + repr(rng.choice([.5, -1.25, 1e-7])), 'none', 'b:1']))


def rtree(rng, d):
    if d == 0 or rng.random() < .65:
        return rleaf(rng)
    return node([rtree(rng, d - 1) for _ in range(rng.randint(0 if rng.random() < .2 else 1, 3))])


def gen(rng, tier):
    res = []
    n = 250 if tier == 'quick' else 3000
    for k in range(n):
        lists, cont = [], []
        for i in range(rng.randint(0, 4)):
            c = rng.choice(['list', 'list', 'tuple', 'zip', 'array', 'str', 'gen'])
            m = rng.randint(0 if rng.random() < .15 else 1, 4)
            if c == 'zip':
                lst = [node([rleaf(rng), rleaf(rng)]) for _ in range(m)]
            elif c == 'array':
                lst = [leaf('i:%d' % rng.randint(0, 9)) for _ in range(m)]
            elif c == 'str':
                lst = [leaf('s:' + ch) for ch in 'abcd'[:m]]
            else:
                lst = [rtree(rng, 2) for _ in range(m)]
            lists.append(lst); cont.append(c)
        res.append(dict(op='loops', lists=lists, flat=rng.random() < .5, cont=cont))
        if k % 3 == 0:
            res.append(dict(op='flatten', items=[rtree(rng, 4) for _ in range(rng.randint(0, 5))]))
        if k % 2 == 0:
            # few values, some of them nearly equal or equal in different types
            U = rng.choice([[0, 1], [1., 1 + 1e-12, 1 - 1e-12], [1e-9, 2e-9, -1e-9, 0.], [1., 2.], ['a', 'b', 'ab'], [1000000, 1000001]])
            m = rng.randint(1, 3)
            res.append(dict(op='unique', what=rng.choice(['row', 'col']), form=rng.choice(['list', 'array', 'F']), rows=[[tagged(rng.choice(U)) for i in range(m)] for j in range(rng.randint(1, 7))]))
        # columns
        t = rng.choice('ifs')
        mk = lambda t: dict(t=t, v={'i': lambda: str(rng.randint(-5, 99)), 'f': lambda: repr(rng.randint(-9, 9) / 4.0),
                                    's': lambda: rng.choice(['', 'x', 'Lala', '1'])}[t]())
        lst = [mk(t if rng.random() < .95 else rng.choice('ifs')) for _ in range(rng.randint(1, 5))]
        ty = rng.choice(['', '', 'text', 'INTEGER', 'float', 'Real', 'FLOAT'])
        old = ty != '' and rng.random() < .3
        res.append(dict(op='column', key=rng.choice(['a', 'ecut_2']), lst=lst, type=ty, utype=ty.upper(), old=old, tup=rng.random() < .3,
                        sf=rng.choice(['id', 'id', 'wrap', 'const']), ff=rng.choice(['id', 'id', 'wrap', 'const', 'none'])))
        nc = rng.randint(1, 4)
        types = [rng.choice('ifs') for _ in range(nc)]
        names = ['a', 'b', 'c', 'd', 'e'][:nc if rng.random() < .93 else max(1, nc + rng.choice([-1, 1]))]
        res.append(dict(op='matrix', lists=[[mk(x) for x in types] for _ in range(rng.randint(1, 4))], names=names,
                        types=[] if rng.random() < .5 else [rng.choice(['text', 'INTEGER', 'float', 'REAL']).upper() for _ in names],
                        sfs=[[x, rng.choice(['wrap', 'const'])] for x in names if rng.random() < .3],
                        ffs=[[x, rng.choice(['wrap', 'const', 'none'])] for x in names if rng.random() < .3],
                        zipped=rng.random() < .3))
    return res


def unt(s):
    if s == 'none':
        return None
    return dict(i=int, f=float, s=str, b=lambda x: bool(int(x)))[s[0]](s[2:])


def build(t):
    return unt(t['v']) if t['k'] == 'leaf' else [build(x) for x in t['c']]


def tree(x):
    if isinstance(x, (list, tuple)):
        return node([tree(y) for y in x])
    return leaf(tagged(x))


def cv(d):
    return dict(i=int, f=float, s=str)[d['t']](d['v'])


def uncv(v):
    if v is None: return dict(t='n', v='')
    if isinstance(v, bool): return dict(t='b', v=str(v))
    if isinstance(v, int): return dict(t='i', v=str(v))
    if isinstance(v, float): return dict(t='f', v=repr(v))
    return dict(t='s', v=v) if isinstance(v, str) else dict(t='?', v=repr(v))


FN = dict(id=lambda x: x, wrap=lambda x: 'A<%s>' % (x,), const=lambda x: 42, none=lambda x: None)


def ent(e):
    return dict(key=e.key, type=e.sqltype, sv=uncv(e.sqlval), fv=uncv(e.fileval))


def run(sc, work):
    ev = dict(sc)
    op = sc['op']
    ev['res'] = []
    if op == 'loops':
        args = []
        for lst, c in zip(sc['lists'], sc['cont']):
            b = [build(x) for x in lst]
            args.append({'list': lambda b: b, 'tuple': tuple, 'gen': lambda b: (x for x in b),
                         'zip': lambda b: zip([x[0] for x in b], [x[1] for x in b]),
                         'array': lambda b: np.array(b, dtype=int), 'str': lambda b: ''.join(b)}[c](b))
        ev['exc'], r = call(comb.nested_loops, args, flatten=sc['flat'])
        if not ev['exc']:
            ev['res'] = [tree(x)['c'] for x in r]
    elif op == 'flatten':
        ev['exc'], r = call(common.flatten, [build(x) for x in sc['items']])
        if not ev['exc']:
            ev['res'] = [tagged(x) for x in r]
    elif op == 'unique':
        a = [[unt(v) for v in r] for r in sc['rows']]
        if sc['what'] == 'col': a = [list(c) for c in zip(*a)]
        if sc['form'] != 'list': a = np.array(a, order='F' if sc['form'] == 'F' else 'C')
        ev['exc'], r = call(comb.unique2d, a, what=sc['what'])
        if not ev['exc']:
            r = r.T if sc['what'] == 'col' else r
            ev['res'] = [[tagged(v) if not isinstance(v, np.str_) else 's:' + str(v) for v in x] for x in r]
    elif op == 'column':
        lst = [cv(x) for x in sc['lst']]
        lst = tuple(lst) if sc['tup'] else lst
        kw = {}
        if sc['sf'] != 'id': kw['sqlval_func'] = FN[sc['sf']]
        if sc['ff'] != 'id': kw['fileval_func'] = FN[sc['ff']]
        if sc['old']:
            ev['exc'], r = call(sql.sql_column_old, sc['key'], sc['type'], lst, **kw)
        else:
            if sc['type']: kw['sqltype'] = sc['type']
            ev['exc'], r = call(sql.sql_column, sc['key'], lst, **kw)
        if not ev['exc']:
            ev['res'] = [ent(e) for e in r]
    else:
        lists = [[cv(x) for x in row] for row in sc['lists']]
        if sc['zipped']:
            lists = [tuple(r) for r in lists]
        kw = {}
        if sc['sfs']: kw['sqlval_funcs'] = dict((k, FN[f]) for k, f in sc['sfs'])
        if sc['ffs']: kw['fileval_funcs'] = dict((k, FN[f]) for k, f in sc['ffs'])
        if sc['types']:
            kw['header'] = list(zip(sc['names'], sc['types']))
        else:
            kw['colnames'] = sc['names']
        ev['exc'], r = call(sql.sql_matrix, lists, **kw)
        if not ev['exc']:
            ev['res'] = [[ent(e) for e in row] for row in r]
    return {}, [ev]


if __name__ == '__main__':
    main(globals())
