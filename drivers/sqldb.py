import os
import numpy as np
from _base import *
from pwtools import sql

B = dict(op='', table='', col='', type='INTEGER', values=[], cols=[], hdr=[], start=1, extend=True, overwrite=False)


def from_mc(x):
    for o in x:
        o.pop('tabs', None); o.pop('exc', None)
    x = x + [dict(B, op='query', q='list1d', cols=['a']), dict(B, op='query', q='header')]
    return dict(cur='t', ops=x, file=False, kw=True)


def gen(rng, tier):
    res = []
    TY = dict(a='INTEGER', b='REAL', c='TEXT', d='INTEGER', e='FLOAT')
    val = dict(INTEGER=lambda: 'i:%d' % rng.choice([0, 1, -5, 123456]), REAL=lambda: 'f:' + repr(rng.choice([0.0, .5, -2.25, 1e10])),
               TEXT=lambda: 's:' + rng.choice(['x', '', 'lala', "it's", '[1, 2]']))
    val['FLOAT'] = val['REAL']
    for k in range(120 if tier == 'quick' else 1500):
        ops = []
        tabs = ['t', 'u', 'results'][:rng.randint(1, 3)]
        cur = tabs[0]
        cols = {t: [] for t in tabs}
        for t in tabs:
            cs = rng.sample('abcde', rng.randint(1, 3))
            cols[t] = list(cs)
            ops.append(dict(B, op='create', table=t, hdr=[[c, TY[c]] for c in cs]))
        for i in range(rng.randint(5, 16)):
            t = rng.choice(tabs)
            tt = '' if t == cur and rng.random() < .7 else t
            r = rng.random()
            c = rng.choice('abcde') if rng.random() < .3 else rng.choice(cols[t])
            vals = [('none' if rng.random() < .15 else val[TY[c]]()) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            fl = dict(start=rng.choice([1, 1, 1, 2, 3, 5]), extend=rng.random() < .65, overwrite=rng.random() < .45)
            if r < .15:
                cs = rng.sample(cols[t], rng.randint(1, len(cols[t])))
                ops.append(dict(B, op='insert', table=t, cols=cs, values=[val[TY[x]]() for x in cs]))
            elif r < .25:
                ops.append(dict(B, op='add', table=tt, col=c, type=TY[c]))
                if c not in cols[t]: cols[t].append(c)
            elif r < .3:
                cs = rng.sample('abcde', rng.randint(1, 3))
                ops.append(dict(B, op='adds', table=tt, hdr=[[x, TY[x]] for x in cs]))
                cols[t] += [x for x in cs if x not in cols[t]]
            elif r < .5:
                ops.append(dict(B, op='fill', table=tt, col=c, values=vals, **fl))
            elif r < .68:
                if not vals or vals[0] == 'none':
                    vals = [val[TY[c]]()] + vals
                ops.append(dict(B, op='attach', table=tt, col=c, values=vals, type='REAL' if TY[c] == 'FLOAT' else TY[c], **fl))
                if c not in cols[t]: cols[t].append(c)
            elif r < .71:
                ops.append(dict(B, op='delete', table=t, start=rng.choice([1, 1, 2, 3])))
            elif r < .74:
                cur = t
                ops.append(dict(B, op='set_table', table=t))
            elif r < .77:
                ops.append(dict(B, op='reopen'))
            elif r < .83:
                mt = rng.choice([t, t, t, 'x', 'new'])
                cs = rng.sample(cols.get(mt, 'abcde'), rng.randint(1, len(cols.get(mt, 'abcde')))) if rng.random() < .8 else rng.sample('abcde', rng.randint(1, 3))
                ty = dict(TY, e='REAL')
                if rng.random() < .1: ty[cs[0]] = 'TEXT'
                vs = [[val[ty[c]]() if j == 0 or rng.random() < .8 else 'none' for c in cs] for j in range(rng.randint(1, 4))]
                if rng.random() < .08: vs[0] = vs[0] + ['i:1']
                # the types are those of the values of the first row
                fc = rng.choice(cs)
                ops.append(dict(B, op='makedb', table=mt, fromfn=mt == 'x' and rng.random() < .7, cols=cs, lists=vs, hdr=[[c, ty[c]] for c in cs],
                                mode=rng.choice('aaaw'), close=rng.random() < .5,
                                fcol=fc if rng.random() < .25 else '', fval=val[ty[fc]](), ffcol=rng.choice(cs) if rng.random() < .2 else ''))
            else:
                q = rng.choice(['list1d', 'array1d', 'array', 'dict', 'single', 'single', 'has_column', 'has_table', 'header', 'maxrowid'])
                cs = rng.sample(cols[t], rng.randint(1, len(cols[t])))
                if q in ('array1d', 'array', 'list1d') :
                    same = [x for x in cols[t] if TY[x] == TY[cs[0]]]
                    cs = same if q != 'array1d' else same[:1]
                ops.append(dict(B, op='query', q=q, table=t if q in ('single', 'list1d', 'array1d', 'array', 'dict') else tt, cols=cs,
                                col=rng.choice(['t', 'u', 'zz']) if q == 'has_table' else (c if q == 'has_column' else cs[0]),
                                start=rng.choice([0, 1, 1, 2, 3])))
        res.append(dict(cur=tabs[0], ops=ops, file=True, kw=rng.random() < .5))
    return res


def unval(s):
    if s == 'none':
        return None
    return dict(i=int, f=float, s=str)[s[0]](s[2:])


def tabs_of(db):
    cur = db.conn.cursor()
    res = {}
    for (t,) in cur.execute("select name from sqlite_master where type='table'").fetchall():
        hdr = [[r[1], r[2]] for r in cur.execute('pragma table_info(%s)' % t).fetchall()]
        rows = [dict(zip([h[0] for h in hdr], [tagged(v) for v in r])) for r in
                cur.execute('select * from %s order by rowid' % t).fetchall()]
        res[t] = dict(hdr=hdr, rows=rows, ids=[r[0] for r in cur.execute('select rowid from %s order by rowid' % t).fetchall()])
    return res if res else []


def run(sc, work):
    fn = os.path.join(work, 'x.db') if sc['file'] else ':memory:'
    cur = sc['cur']
    db = sql.SQLiteDB(fn, table=cur)
    evs = []
    known = set()
    for o in sc['ops']:
        e = dict(o)
        tab = e['table'] or cur
        if e['op'] not in ('create', 'set_table', 'reopen', 'makedb') and tab not in known:
            continue
        if e['op'] in ('insert', 'query') and e.get('q') != 'has_column':
            have = [h[0] for h in tabs_of(db)[tab]['hdr']]
            if not all(c in have for c in e['cols']) or (e.get('q') in ('single', 'dict') and e['col'] not in have):
                continue
        if e['op'] in ('fill', 'attach'):
            ids = tabs_of(db)[tab]['ids']
            if not all(i in ids or i > max(ids, default=0) for i in range(e['start'], e['start'] + len(e['values']))):
                continue        # addresses a row which was deleted
        kw = dict(table=e['table']) if e['table'] else {}
        fk = dict(start=e['start'], extend=e['extend'], overwrite=e['overwrite'])
        if not sc['kw']:
            dft = dict(start=1, extend=True, overwrite=False)
            fk = {k: v for k, v in fk.items() if dft[k] != v}
        vals = [unval(v) for v in e['values']]
        op, res = e['op'], None
        if op == 'create':
            exc, _ = call(db.create_table, [tuple(h) for h in e['hdr']], **kw)
            if not exc:
                known.add(tab)
        elif op == 'insert':
            exc, _ = call(db.execute, 'insert into %s (%s) values (%s)' % (tab, ','.join(e['cols']), ','.join('?' * len(vals))), tuple(vals))
        elif op == 'add':
            exc, _ = call(db.add_column, e['col'], e['type'], **kw)
        elif op == 'adds':
            exc, _ = call(db.add_columns, [tuple(h) for h in e['hdr']], **kw)
        elif op == 'fill':
            exc, _ = call(db.fill_column, e['col'], vals, **fk, **kw)
        elif op == 'attach':
            if sc['kw']:
                kw['sqltype'] = e['type']
            exc, _ = call(db.attach_column, e['col'], vals, **fk, **kw)
        elif op == 'delete':
            exc, _ = call(db.execute, 'delete from %s where rowid==?' % tab, (e['start'],))
        elif op == 'set_table':
            exc, _ = call(db.set_table, e['table'])
            cur = e['table']
        elif op == 'reopen':
            exc = ''
            if fn != ':memory:':
                exc, _ = call(db.finish)
                db = sql.SQLiteDB(fn, table=cur)
        elif op == 'makedb':
            if fn == ':memory:':
                continue
            have = tabs_of(db)
            odd = [c for c, ty in e['hdr'] if ty == 'TEXT' and c != 'c']
            if odd and not (e['mode'] == 'a' and tab in have and odd[0] in [h[0] for h in have[tab]['hdr']]):
                continue        # would give the column another type than the later values have
            db.finish()
            mk = {} if e['fromfn'] else dict(table=e['table'])
            if e['fcol']: mk['sqlval_funcs'] = {e['fcol']: lambda x, v=unval(e['fval']): v}
            if e['ffcol']: mk['fileval_funcs'] = {e['ffcol']: lambda x: 'no such value'}
            if e['mode'] != 'a' or sc['kw']: mk['mode'] = e['mode']
            if not e['close'] or sc['kw']: mk['close'] = e['close']
            exc, r = call(sql.makedb, fn, [[unval(v) for v in row] for row in e['lists']], list(e['cols']), **mk)
            e['open'] = bool(exc) or e['close'] or call(r.get_single, 'select count(*) from %s' % e['table'])[0] == ''
            # what was built is there for other users of the file while this connection is still open
            db = sql.SQLiteDB(fn, table=cur)
            e['seen'] = tabs_of(db)
            db.finish()
            r = None
            db = sql.SQLiteDB(fn, table=cur)
            now = tabs_of(db)
            known = set(now)
        elif op == 'query':
            q = e['q']
            sel = 'select %s from %s' % (','.join(e['cols']), tab)
            if q == 'list1d':
                exc, r = call(db.get_list1d, sel); res = [tagged(v) for v in r] if not exc else []
            elif q == 'array1d':
                exc, r = call(db.get_array1d, sel)
                res = [tagged(v) for v in r.tolist()] if not exc else []
            elif q == 'array':
                exc, r = call(db.get_array, sel)
                res = [[tagged(v) for v in row] for row in r.tolist()] if not exc else []
            elif q == 'dict':
                exc, r = call(db.get_dict, sel)
                e['keys'] = list(r) if not exc else []
                res = [[tagged(v) for v in r[k]] for k in e['keys']]
            elif q == 'single':
                w = ' where rowid==?' if e['start'] else ''
                exc, r = call(db.get_single, 'select %s from %s%s' % (e['col'], tab, w), *([(e['start'],)] if w else []))
                res = [tagged(r)] if not exc else []
            elif q == 'has_column':
                exc, r = call(db.has_column, e['col'], **kw); res = bool(r)
            elif q == 'has_table':
                exc, r = call(db.has_table, e['col']); res = bool(r)
            elif q == 'header':
                exc, r = call(db.get_header, **kw); res = [list(h) for h in r] if not exc else []
            else:
                exc, r = call(db.get_max_rowid, **kw); res = r if isinstance(r, int) else 0
            e['res'] = res
        e['exc'] = exc
        e['tabs'] = tabs_of(db)
        evs.append(e)
    return dict(cur=sc['cur']), evs


if __name__ == '__main__':
    main(globals())
