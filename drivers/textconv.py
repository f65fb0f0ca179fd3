import configparser, io as sio, re, tempfile
import numpy as np
from decimal import Decimal
from _base import *
from loops import rtree, build, tagged
from pwtools import common, batch


def from_mc(x):
    n = len(x['ys'][0])
    return dict(x, op='table', xs=['%d %d' % (i, i * 2) for i in range(n)], form='list', wide=False)


def gen(rng, tier):
    res = []
    R = rng.choice
    for k in range(150 if tier == 'quick' else 2000):
        n, q = rng.randint(1, 7), rng.randint(1, 4)
        form = R(['list', 'array', 'tuple', '1d' if q == 1 else 'list', 'int'])
        sc = 4 if form == 'int' else 1
        res.append(dict(op='table', xs=['%d %d %d' % ((i + 1,) * 3) for i in range(n)], ys=[[sc * rng.randint(-4000, 4000) for _ in range(n)] for _ in range(q)],
                        mode=R(['last', 'next']), orig=R([True, False]), absdiff=R([True, False]), form=form, wide=R([True, False])))
        its = [rng.randint(-99, 99) for _ in range(rng.randint(0, 6))]
        sep = R([' ', ',', ', ', ':', '  '])
        res.append(dict(op='seq2str', items=[str(i) for i in its], ints=its, sep=sep))
        if its:
            res.append(dict(op='str2seq', ints=its, sep=sep, none=R([True, False]), tup=R([True, False]), fn=R(['int', 'float'])))
        s = lambda: R(['none', 'i:%d' % rng.randint(-9, 9)])
        a = s()
        m = R([1, 2, 3])
        if m == 1 and a == 'none': a = 'i:-3'
        c = s()
        if c == 'i:0': c = 'i:2'
        res.append(dict(op='toslice', n=m, a=a, b=s(), c=c, sp=R(['', ' '])))
        w = R(['.true.', 'true', 'on', 'yes', '1', '.false.', 'false', 'off', 'no', '0', 'maybe', '', 't', 'yess', '2'])
        res.append(dict(op='tobool', kind=R(['s', 's', 's', 'b', 'i', 'f']), word=w, text=R([w, w.upper(), w.capitalize()]), i=0))
        if res[-1]['kind'] in 'bi':
            res[-1]['i'] = R([0, 1]) if res[-1]['kind'] == 'b' else R([0, 1, -1, 2, 5])
        dig = R(['1', '25', '3', '40.0', '0.5', '123.456', '9.', '.75', '100', '7', '12345678'])
        ech = R(['', 'e', 'E', 'd', 'D', 'd', 'D'])
        es, e = R(['', '+', '-']), R(['0', '3', '02', '10', '7'])
        kind = R(['', '', '_10', '_dp']) if ech in 'dD' and ech else ''
        sg = R(['', '-', '+'])
        txt = R(['', ' ']) + sg + dig + (ech + es + e if ech else '') + kind + R(['', ' '])
        ip, _, fp = dig.partition('.')
        ds = (ip + fp).lstrip('0')
        ex = -len(fp) + (int(es + e) if ech else 0)
        while ds.endswith('0'):
            ds, ex = ds[:-1], ex + 1
        res.append(dict(op='ffloat', text=txt, valid=True, neg=sg == '-', dig=ds, ex=ex))
        if rng.random() < .1:
            res.append(dict(op='ffloat', text=R(['abc', '', 'd5', '1.0x', 'xd3']), valid=False, neg=False, dig='', ex=0))
        res.append(dict(op='flatten', items=[rtree(rng, 4) for _ in range(rng.randint(0, 5))]))
        items = [R('abcd') for _ in range(rng.randint(0, 7))]
        res.append(dict(op='pop', items=items, rm=[R('abcde' if rng.random() < .2 else (items or 'a')) for _ in range(rng.randint(0, 3))]))
        res.append(dict(op='dict2str', ks=rng.sample(['a', 'b', 'key', 'x y'], rng.randint(0, 4)), vs=[]))
        res[-1]['vs'] = [rng.randint(-9, 9) for _ in res[-1]['ks']]
        rows = [[rng.randint(-20, 20) for _ in range(rng.randint(1, 4))]]
        rows = rows + [[rng.randint(-20, 20) for _ in rows[0]] for _ in range(rng.randint(0, 3))]
        res.append(dict(op='str_arr', rows=rows, eps=R([-1, 1, 3]), d1=len(rows) == 1 and R([True, False]), delim=R([None, ' ', '\t'])))
        res.append(dict(op='fix_eps', rows=rows, eps=R([1, 2, 8]), copy=R([True, False])))
        res.append(dict(op='asseq', isseq=R([True, False]), items=[R(['i:1', 's:abc', 's:'])]))
        ops, names = [], ['a.txt', 'b', 'c.d.e']
        for i in range(rng.randint(2, 6)):
            o = dict(op=R(['write', 'write', 'read', 'readlines']), fn=R(names), lines=[], raw=False)
            if o['op'] == 'write':
                o['lines'] = [dict(t=R(['', 'x y', ' lead', 'trail ', '1.0\t2', 'a\x0cb']), e=R(['n', 'n', 'rn'])) for j in range(rng.randint(0, 4))] + ([dict(t='end', e='')] if rng.random() < .4 else [])
            elif o['op'] == 'read': o['raw'] = R([False, False, True])
            ops.append(o)
        res.append(dict(op='files', ops=ops))
        nm = lambda: R(['a', 'bc', '..', '.', 'x.y', '..'])
        parts = [dict(abs=R([False, False, True]), names=[nm() for j in range(rng.randint(1, 4))]) for i in range(rng.randint(1, 3))]
        if rng.random() < .4: parts[0] = dict(abs=False, names=['~'] + parts[0]['names'])
        res.append(dict(op='path', parts=parts))
        cfg = lambda ss: [dict(sec=z, key=q, val=R(['1', 'a b', ''])) for z in ss for q in rng.sample(['k', 'long_key', 'z'], rng.randint(1, 3))]
        res.append(dict(op='config', have=cfg(rng.sample('ABC', rng.randint(0, 2))), add=cfg(rng.sample('BCDE', rng.randint(1, 2)))))
        kd = R(['float', 'float', 'int', 'str', 'none', 'bool'])
        res.append(dict(op='frepr', kind=kd, val=R([rng.uniform(-1, 1) * 10**rng.randint(-200, 200), .1, 1 / 3., 0., -2.5]).hex() if kd == 'float' else R(['', 'abc', "a'b"]) if kd == 'str' else str(R([0, 1, -7, 10**12]))))
        res.append(dict(op='isseq', kind=R(['list', 'tuple', 'array', 'dict', 'set', 'generator', 'str', 'file', 'int', 'float', 'none', 'bytesio', 'stringio', 'array0']), ))
        res.append(dict(op='classes', made=[dict(name=R(['Foo', 'Bar', 'Dummy']), items=[dict(k=z, v=rng.randint(0, 9)) for z in sorted(rng.sample('abc', rng.randint(0, 3)))]) for i in range(rng.randint(1, 3))]))
        res.append(dict(op='cond', ok=R([True, False])))
    return res


def split(txt):
    return [dict(t=t, e=dict([('\n', 'n'), ('\r\n', 'rn'), ('', '')])[e]) for t, e in re.findall(r'([^\r\n]*)(\r\n|\n|$)', txt) if t or e]


def run(sc, work):
    ev = dict(sc)
    op = sc['op']
    res = []
    if op == 'table':
        f = sc['form']
        dv = [[y / 4.0 for y in q] for q in sc['ys']]
        if f == 'int': dv = [[y // 4 for y in q] for q in sc['ys']]
        yy = dict(list=dv, array=np.array(dv), tuple=tuple(tuple(x) for x in dv), int=np.array(dv))
        arg = dv[0] if f == '1d' else yy[f]
        kw = dict(mode=sc['mode'], orig=sc['orig'], absdiff=sc['absdiff'])
        w = 15
        if sc['wide']:
            w = 20
            kw.update(ffmt='%22.6e', sfmt='%20s')
        exc, r = call(batch.conv_table, sc['xs'], arg, **kw)
        if not exc:
            for line in r.split('\n'):
                if line:
                    res.append(dict(x=line[:w].strip(), row=[snap(v, 4, 1e-3) for v in line[w:].split()]))
        got = [arg] if f == '1d' else arg
        ev['yafter'] = [[snap(v, 4) for v in q] for q in got]
    elif op == 'seq2str':
        exc, res = call(common.seq2str, sc['ints'], **({} if sc['sep'] == ' ' else dict(sep=sc['sep'])))
    elif op == 'str2seq':
        none = sc['none'] and sc['sep'].strip() == ''
        kw = {} if none else dict(sep=sc['sep'])
        if sc['fn'] == 'float': kw['func'] = float
        exc, res = call(common.str2tup if sc['tup'] else common.str2seq, (sc['sep']).join(map(str, sc['ints'])), **kw)
        res = [int(x) for x in res] if not exc else []
    elif op == 'toslice':
        p = [(x[2:] if x != 'none' else '') for x in (sc['a'], sc['b'], sc['c'])][:sc['n']]
        exc, r = call(common.toslice, sc['sp'] + ':'.join(p))
        if not exc:
            res = [tagged(r.start), tagged(r.stop), tagged(r.step)] if isinstance(r, slice) else [tagged(r)]
    elif op == 'tobool':
        v = dict(s=sc['text'], b=bool(sc['i']), i=sc['i'], f=1.5)[sc['kind']]
        exc, r = call(common.tobool, v)
        res = r if isinstance(r, bool) else 'not a bool'
        if exc: res = False
    elif op == 'ffloat':
        exc, r = call(common.ffloat, sc['text'])
        if not exc:
            t = Decimal(repr(float(r))).normalize().as_tuple()
            res = dict(neg=bool(t.sign), dig=''.join(map(str, t.digits)), ex=int(t.exponent))
    elif op == 'flatten':
        exc, r = call(common.flatten, [build(x) for x in sc['items']])
        res = [tagged(x) for x in r] if not exc else []
    elif op == 'pop':
        lst = list(sc['items'])
        exc, res = call(common.pop_from_list, lst, sc['rm'])
        res = res if not exc else []
        ev['after'] = lst
    elif op == 'dict2str':
        exc, res = call(common.dict2str, dict(zip(sc['ks'], sc['vs'])))
    elif op == 'str_arr':
        a = np.array(sc['rows']) / 8.0
        if sc['d1']: a = a[0]
        kw = {} if sc['delim'] is None else dict(delim=sc['delim'])
        exc, r = call(common.str_arr, a, eps=sc['eps'] / 8.0, **kw)
        if not exc:
            res = [[snap(x, 8) for x in l.split(sc['delim'])] for l in r.split('\n')]
        ev['after'] = [[snap(x, 8) for x in l] for l in np.atleast_2d(a)]
    elif op == 'fix_eps':
        a = np.array(sc['rows']) / 8.0
        exc, r = call(common.fix_eps, a, eps=sc['eps'] / 8.0, copy=sc['copy'])
        if not exc:
            res = [[snap(x, 8) for x in l] for l in r]
        ev['after'] = [[snap(x, 8) for x in l] for l in a]
    elif op == 'asseq':
        v = [x[2:] if x[0] == 's' else int(x[2:]) for x in sc['items']]
        exc, r = call(common.asseq, v if sc['isseq'] else v[0])
        res = [tagged(x) for x in r] if not exc else []
    elif op == 'files':
        exc, d, E = '', tempfile.mkdtemp(dir=work), dict(n='\n', rn='\r\n')
        E[''] = ''
        for o in sc['ops']:
            fn = os.path.join(d, o['fn'])
            if o['op'] == 'write': x, r = call(common.file_write, fn, ''.join(l['t'] + E[l['e']] for l in o['lines']))
            elif o['op'] == 'read': x, r = call(common.file_read, fn, **(dict(newline='') if o['raw'] else {}))
            else: x, r = call(common.file_readlines, fn)
            n = len(r) if r is not None and not x else 0
            res.append(dict(exc=x, n=n, lines=split(''.join(r)) if r is not None and not x else []))
    elif op == 'path':
        old, home = os.getcwd(), os.environ.get('HOME')
        d = tempfile.mkdtemp(dir=os.path.realpath(work))
        os.environ['HOME'] = d + '/home'
        os.mkdir('%s/home' % d)
        os.symlink('home', d + '/bc')
        os.chdir(d)
        try:
            a = [('/' if z['abs'] else '') + '/'.join(z['names']) for z in sc['parts']]
            exc, r = call(common.fullpathjoin, *a)
            if len(a) == 1 and not exc:
                exc, r2 = call(common.fullpath, a[0])
                if r2 != r: r = '/differ'
        finally:
            os.chdir(old)
            if home is None: del os.environ['HOME']
            else: os.environ['HOME'] = home
        comps = lambda q: [z for z in q.split('/') if z]
        res = comps(r) if not exc and r.startswith('/') else ['not absolute']
        ev.update(cwd=comps(d), home=comps(d + '/home'))
    elif op == 'config':
        c = configparser.ConfigParser()
        for z in sc['have']:
            if not c.has_section(z['sec']): c.add_section(z['sec'])
            c.set(z['sec'], z['key'], z['val'])
        info = {}
        for z in sc['add']: info.setdefault(z['sec'], {})[z['key']] = z['val']
        exc, r = call(common.add_to_config, c, info)
        ev['same'] = r is c
        res = [dict(sec=z, key=q, val=c.get(z, q)) for z in c.sections() for q in c.options(z)]
    elif op == 'frepr':
        v = dict(float=lambda t: float.fromhex(t), int=int, str=str, none=lambda t: None, bool=lambda t: t == '1')[sc['kind']](sc['val'])
        exc, r = call(common.frepr, v)
        ev['text'] = v if sc['kind'] == 'str' else '' if sc['kind'] == 'float' else str(v)
        ev['back'] = bool(isinstance(r, str) and (sc['kind'] != 'float' or float(r) == v))
        res = r if isinstance(r, str) else 'not a string'
    elif op == 'isseq':
        with open(os.devnull) as fd:
            v = dict(list=[], tuple=(1, 2), array=np.zeros(3), dict={'a': 1}, set={1}, generator=(i for i in [1]), str='abc', file=fd, int=1, float=2., none=None, bytesio=sio.BytesIO(), stringio=sio.StringIO('a'),
                     array0=np.array(3.))[sc['kind']]
            exc, res = call(common.is_seq, v)
    elif op == 'classes':
        exc, objs = call(lambda: [common.dict2class({i['k']: i['v'] for i in m['items']}, m['name']) for m in sc['made']])
        res = [dict(name=type(o).__name__, items=[dict(k=z, v=o.__dict__[z]) for z in sorted(o.__dict__)]) for o in objs or []]
    elif op == 'cond':
        exc, r = call(common.assert_cond, sc['ok'], 'text')
    ev['exc'] = exc
    ev['res'] = res
    return {}, [ev]


if __name__ == '__main__':
    main(globals())
