import os, re
from _base import *
from pwtools import batch, common, sql

O, C = '\x01', '\x02'     # marks around float placeholders


def from_mc(x):
    for d in x['dct']:
        d.update(kind='i' if d['txt'].isdigit() else 's', val=d['txt'])
    base = dict(x, op='write', func='XXX', how='txt' if x['sel'] != 'none' else 'filename')
    return [dict(base, mode='dct'), dict(base, mode='sql', how='file')]


def gen(rng, tier):
    res = []
    floats = [0.1, 1.0, -2.5e-7, 1 / 3.0, 6.02214076e23, 3.141592653589793, 5e-324, 1.7976931348623157e308, -0.0, 123456789.123456789, 2.0000000000000004]
    for k in range(300 if tier == 'quick' else 4000):
        func = rng.choice(['XXX', 'XXX', '@@', '<<'])
        names = rng.sample(['ecut', 'nk', 'Pot', 'alat_2', 'x', 'temp'], rng.randint(1, 5))
        mk = {'XXX': lambda n: 'XXX' + n.upper(), '@@': lambda n: '@@' + n + '@@', '<<': lambda n: '<<%s>>' % n}[func]
        if func == 'XXX' and 'x' in names and len(names) > 1:
            names.remove('x')
        dct = []
        mode = rng.choice(['dct', 'sql'])
        op = rng.choice(['write'] * 5 + ['treplace', 'dreplace', 'freplace'])
        for n in names:
            kind = rng.choice('isfbN' if op == 'write' else ('s' if op != 'treplace' else 'isf'))
            v = {'i': lambda: str(rng.choice([0, 7, -12, 10**12])), 's': lambda: rng.choice(['', 'PBE', 'a b\n c', '%s %(x)d', '\\1\\n', 'true', '1.0']),
                 'f': lambda: rng.choice(floats).hex(), 'b': lambda: rng.choice(['True', 'False']), 'N': lambda: 'None'}[kind]()
            d = dict(k=n, kind=kind, val=v, txt=(O + v + C) if kind == 'f' else v)
            d['sqlval'] = 'other'
            dct.append(d)
        toks = []
        for i in range(rng.randint(0, 14)):
            if rng.random() < .5 and op != 'dreplace':
                toks.append(dict(t='lit', v=rng.choice(['\n', ' ', 'K_POINTS automatic\n', 'ecut = ', '# $x ', '100%', 'xxxecut', '\\', '"', "'", 'äß', '\t', '{a}', '%(nk)s', '\r\n', 'a\rb', '\x0c', '\u2028']), ph=''))
            elif rng.random() < .3:
                toks.append(dict(t='lit', v=rng.choice(['\n', ' ', 'abc', '\t']), ph=''))
            else:
                n = rng.choice(names + ['missing'])
                if op == 'dreplace' and n == 'missing':
                    continue
                fl = any(d['k'] == n and d['kind'] == 'f' for d in dct)
                if fl:
                    toks.append(dict(t='fopen', v='', ph=''))
                toks.append(dict(t='ph', v=n, ph=mk(n) if op != 'dreplace' else '%(' + n + ')s'))
                if fl:
                    toks.append(dict(t='fclose', v='', ph=''))
        sel = rng.choice(['all', 'all', 'keys', 'keys', 'none']) if op == 'write' else 'all'
        ks = rng.sample(names, rng.randint(1, len(names))) if sel == 'keys' else []
        res.append(dict(op=op, toks=toks, sel=sel, keys=ks, dct=dct, mode=mode, func=func,
                        how='file' if sel == 'none' else rng.choice(['txt', 'file', 'filename']), bak=rng.choice(['', '.bak']),
                        conv=op == 'treplace'))
    return res


def text(toks):
    return ''.join(dict(lit=t['v'], ph=t['ph'], fopen=O, fclose=C)[t['t']] for t in toks)


def canon(s):
    def sub(m):
        try:
            return O + float(m.group(1)).hex() + C
        except ValueError:
            return m.group(0)
    return re.sub(O + '([^' + O + C + ']*)' + C, sub, s)


def val(d):
    return dict(i=int, s=str, f=float.fromhex, b=lambda x: x == 'True', N=lambda x: None)[d['kind']](d['val'])


def run(sc, work):
    func = {'XXX': lambda x: 'XXX' + x.upper(), '@@': lambda n: '@@' + n + '@@', '<<': lambda n: '<<%s>>' % n}[sc['func']]
    src = text(sc['toks'])
    tdir, cdir = os.path.join(work, 'calc.templ'), os.path.join(work, 'calc')
    os.makedirs(tdir); os.makedirs(cdir)
    name = 'pw.in'
    fn = os.path.join(tdir, name)
    ev = dict(sc)
    # spec tokens: float marks are part of the literal text around, or of the rendered value
    toks, i = [], 0
    selset = set(d['k'] for d in sc['dct']) if sc['sel'] == 'all' else set(sc['keys'])
    for t in sc['toks']:
        toks.append(t)
    spec = []
    for t in toks:
        if t['t'] in ('fopen', 'fclose'):
            spec.append(dict(t='lit', v=O if t['t'] == 'fopen' else C, ph=''))
        else:
            spec.append(t)
    # a float value's text is the hex between the marks: marks are literals, so txt = hex only
    ev['toks'] = spec
    ev['dct'] = [dict(k=d['k'], txt=d['val'] if d['kind'] == 'f' else d['txt']) for d in sc['dct']]
    ev['name'] = name
    ev['bak'] = sc.get('bak', '')
    ev['bakc'] = ''
    if sc['how'] != 'txt' or sc['op'] == 'freplace':
        open(fn, 'w', newline='').write(src)
    ev['src0'] = src
    ev['listing'] = []
    out = ''
    if sc['op'] == 'write':
        kw = dict(keys=None if sc['sel'] == 'all' else list(sc['keys']))
        if sc['func'] != 'XXX':
            kw['func'] = func
        if sc['how'] == 'txt':
            ft = batch.FileTemplate(basename=name, txt=src, templ_dir=os.path.join(work, 'none'), **kw)
        elif sc['how'] == 'file':
            ft = batch.FileTemplate(basename=name, templ_dir=tdir, **kw)
        else:
            ft = batch.FileTemplate(filename=fn, **kw)
        if sc['mode'] == 'dct':
            dct = dict((d['k'], val(d)) for d in sc['dct'])
            exc, _ = call(ft.write, dct, calc_dir=cdir)
        else:
            dct = {}
            for d in sc['dct']:
                v = val(d)
                dct[d['k']] = sql.SQLEntry(sqlval=d['sqlval'], fileval=v) if v is not None and 'sqlval' in d \
                    else sql.SQLEntry(sqlval=v)
            exc, _ = call(ft.writesql, dct, calc_dir=cdir)
        ev['listing'] = sorted(os.listdir(cdir))
        if os.path.exists(os.path.join(cdir, name)):
            out = open(os.path.join(cdir, name), newline='').read()
    elif sc['op'] == 'treplace':
        exc, out = call(common.template_replace, src, dict((func(d['k']), val(d)) for d in sc['dct']), conv=True, mode='txt')
    elif sc['op'] == 'dreplace':
        exc, out = call(common.template_replace, src, dict((d['k'], val(d)) for d in sc['dct']))
    else:
        exc, _ = call(common.file_template_replace, fn, dict((func(d['k']), val(d)) for d in sc['dct']), bak=ev['bak'], mode='txt')
        out = open(fn, newline='').read()
        if ev['bak']:
            ev['bakc'] = open(fn + ev['bak'], newline='').read() if os.path.exists(fn + ev['bak']) else '<none>'
    ev['exc'] = exc
    ev['out'] = canon(out) if isinstance(out, str) else '<not a string>'
    ev['src'] = src if sc['how'] == 'txt' or sc['op'] == 'freplace' else open(fn, newline='').read()
    return {}, [ev]


if __name__ == '__main__':
    main(globals())
