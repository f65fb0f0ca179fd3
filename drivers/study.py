import os, sqlite3
from _base import *
from pwtools import batch, sql, common

CFG0 = dict(table='tab', db='study.db', prefix='calc', study='st')


def from_mc(x):
    return dict(cfg=CFG0, writes=x)


def gen(rng, tier):
    res = []
    for k in range(45 if tier == 'quick' else 400):
        cfg = dict(table=rng.choice(['calc', 'tab', 'results']), db=rng.choice(['calc.db', 'st.sqlite', 'x.db']),
                   prefix=rng.choice(['calc', 'run', 'calc_x']), study=rng.choice(['calc', 'foo', 'my-study']))
        hosts = ['h1', 'local', 'cluster2']
        allkeys = ['ecut', 'pot', 'nk', 'temp', 'alat', 'smear'][:rng.randint(1, 6)]
        kind = {k: rng.choice('isf') for k in allkeys}
        auto = ['idx', 'revision', 'study_name', 'calc_name', 'subcmd', 'scratch', 'home']

        style = rng.choice(['X', 'X', '@'])

        def toks(keys):
            t = []
            for i in range(rng.randint(1, 9)):
                if rng.random() < .5:
                    t.append(dict(t='lit', v=rng.choice([' ', '\n', 'x = ', '&control\n', '12', '%s', '\\1 $x', 'a=b\n\n']), ph=''))
                else:
                    k = rng.choice(keys)
                    t.append(dict(t='ph', v=k, ph='@%s@' % k if style == '@' else 'XXX' + k.upper()))
                    t.append(dict(t='lit', v=rng.choice([' ', '\n', ';', '/']), ph=''))
            return t
        nt = rng.randint(0, 3)
        templates = [dict(name=n, toks=toks(allkeys + auto), copy=rng.random() < .25) for n in ['pw.in', 'lmp.inp', 'notes'][:nt]]
        pw, pb = rng.choice([(.2, .5), (.5, .8)])
        writes = []
        for w in range(rng.randint(2, 5)):
            hs = rng.sample(hosts, rng.randint(1, 2))
            machines = [dict(host=h, subcmd=rng.choice(['qsub', 'bsub <', 'bash']), home='/home/' + h,
                             scratch=rng.choice(['/scr', '/tmp/' + h]),
                             job=dict(name='job.' + h, toks=toks(allkeys + auto))) for h in hs]
            params = []
            for r in range(rng.choice([1, 1, 2, 3, 12 if rng.random() < .3 else 2])):
                ks = [k for k in allkeys if rng.random() < .75]
                if rng.random() < .3:
                    rng.shuffle(ks)
                rec = []
                for kk in ks:
                    v = rng.choice([0, 1, 7, 1000000, -3])
                    s = rng.choice(['PBE', '', 'a b', "it's", 'none'])
                    if kind[kk] == 'i':
                        e = dict(k=kk, sv='i:%d' % v, fv=str(v))
                    elif kind[kk] == 's':
                        e = dict(k=kk, sv='s:' + s, fv=s)
                    else:   # file value differs from the database value
                        e = dict(k=kk, sv='f:' + repr(v / 4.0), fv='<%d>\n' % v)
                    rec.append(e)
                params.append(rec)
            writes.append(dict(op='write', mode='w' if rng.random() < pw else 'a', backup=rng.random() < pb,
                               excl=rng.random() < .6, sleep=rng.choice([0, 1, 10]), machines=machines,
                               templates=templates, params=params))
        # what the user does in between
        seq, uc = [], 0
        nidx = set()
        for iw, w in enumerate(writes):
            seq.append(w)
            if w['mode'] == 'w':
                nidx = set()
            nidx |= set(range(max(nidx) + 1 if nidx else 0, (max(nidx) + 1 if nidx else 0) + len(w['params'])))
            if rng.random() < .5 and iw < len(writes) - 1:
                for _ in range(rng.randint(1, 2)):
                    d = cfg['prefix'] + '_' + rng.choice(w['machines'])['host']
                    u = rng.choice(['delrow', 'addcol', 'addfile', 'rmcalc', 'insrow', 'delrev'])
                    if u == 'insrow':
                        # rows of calculations which were not made by this study, not in order
                        m = max(nidx)
                        for j in rng.choice([[3, 1], [2], [1, 4, 2]]):
                            nidx.add(m + j)
                            seq.append(dict(op=u, idx=m + j, rev=rng.choice([0, iw, iw + 3])))
                    elif u == 'delrev':
                        f = sorted(nidx)
                        for i in f[:rng.randint(0, len(f) - 1)]:
                            nidx.discard(i)
                            seq.append(dict(op='delrow', idx=i))
                    elif u == 'delrow' and len(nidx) > 1:
                        i = rng.choice(sorted(nidx)[:-1])
                        nidx.discard(i)
                        seq.append(dict(op=u, idx=i))
                    elif u == 'addcol':
                        uc += 1
                        seq.append(dict(op=u, col='res%d' % uc, base=100 * uc))
                    elif u == 'addfile':
                        seq.append(dict(op=u, dir=d, idx=rng.choice(sorted(nidx)[-len(w['params']):]),
                                        name=rng.choice(['pw.out', 'pw.in', 'traj.dcd']), text=rng.choice(['result\n', ''])))
                    elif u == 'rmcalc':
                        seq.append(dict(op=u, dir=d, idx=sorted(nidx)[-1]))
        writes = seq
        res.append(dict(cfg=cfg, writes=writes, nest=rng.random() < .4, viafile=rng.random() < .4, style=style,
                        single=rng.random() < .5))
    return res


def unval(sv):
    t, v = sv[0], sv[2:]
    return dict(i=int, f=float, s=str)[t](v)


def ttext(toks):
    return ''.join(t['v'] if t['t'] == 'lit' else t['ph'] for t in toks)


def dump_db(path, table):
    con = sqlite3.connect('file:%s?mode=ro' % path, uri=True)
    try:
        cols = [r[1] for r in con.execute('pragma table_info(%s)' % table)]
        rows = [dict(zip(cols, [tagged(v) for v in r])) for r in
                con.execute('select %s from %s order by rowid' % (','.join(cols), table))] if cols else []
    finally:
        con.close()
    return cols, rows


def snapshot(root, cfg):
    files, dbs = [], []
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in fn:
            p = ([] if rel == '.' else rel.split(os.sep)) + [f]
            full = os.path.join(d, f)
            if len(p) == 1 and open(full, 'rb').read(6) == b'SQLite':
                cols, rows = dump_db(full, cfg['table'])
                dbs.append(dict(n=f, cols=cols, rows=rows))
            else:
                files.append(dict(p=p, c=open(full, encoding='latin1', newline='').read()))
        if not fn and not dn and d != root:
            files.append(dict(p=rel.split(os.sep) + ['<empty dir>'], c=''))
    return dict(files=files, dbs=dbs)


def user(w, root, cfg):
    if w['op'] == 'addfile':
        d = os.path.join(root, w['dir'], str(w['idx']))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, w['name']), 'w', newline='') as fh:
            fh.write(w['text'])
    elif w['op'] == 'rmcalc':
        d = os.path.join(root, w['dir'], str(w['idx']))
        for n in os.listdir(d) if os.path.isdir(d) else []:
            os.unlink(os.path.join(d, n))
        if os.path.isdir(d):
            os.rmdir(d)
    else:
        con = sqlite3.connect(os.path.join(root, cfg['db']))
        if w['op'] == 'delrow':
            con.execute('delete from %s where idx=?' % cfg['table'], (w['idx'],))
        elif w['op'] == 'insrow':
            con.execute('insert into %s (idx, revision) values (?,?)' % cfg['table'], (w['idx'], w['rev']))
        else:
            con.execute('alter table %s add column %s integer' % (cfg['table'], w['col']))
            con.execute('update %s set %s=idx+?' % (cfg['table'], w['col']), (w['base'],))
        con.commit()
        con.close()


def run(sc, work):
    cfg = sc['cfg']
    root = os.path.join(work, 'root')
    tdir = os.path.join(work, 'calc.templ')
    evs = []
    for iw, w in enumerate(sc['writes']):
        if w['op'] != 'write':
            user(w, root, cfg)
            evs.append(dict(w, exc=''))
            continue
        td = os.path.join(tdir, str(iw))
        os.makedirs(td)

        fk = dict(func=lambda x: '@%s@' % x) if sc.get('style') == '@' else {}

        def machine(m):
            kw = dict(hostname=m['host'], subcmd=m['subcmd'], home=m['home'], scratch=m['scratch'])
            if sc.get('viafile') and not fk and m['host'] != ms0:
                fn = os.path.join(td, m['job']['name'])
                with open(fn, 'w', newline='') as fh:
                    fh.write(ttext(m['job']['toks']))
                return batch.Machine(filename=fn, **kw)
            return batch.Machine(template=ft(m['job']), **kw)

        def ft(t):
            if t.get('copy'):
                # not edited: copied as it is
                with open(os.path.join(td, t['name']), 'w', newline='') as fh:
                    fh.write(ttext(t['toks']))
                return batch.FileTemplate(basename=t['name'], templ_dir=td, keys=[])
            if sc.get('viafile'):
                with open(os.path.join(td, t['name']), 'w', newline='') as fh:
                    fh.write(ttext(t['toks']))
                return batch.FileTemplate(filename=os.path.join(td, t['name']), **fk) if len(t['name']) % 2 else batch.FileTemplate(basename=t['name'], templ_dir=td, **fk)
            return batch.FileTemplate(basename=t['name'], txt=ttext(t['toks']), **fk)
        ms0 = w['machines'][0]['host'] if iw % 2 else ''
        ms = [machine(m) for m in w['machines']]
        ts = [ft(t) for t in w['templates']]
        plist = []
        for rec in w['params']:
            ents = []
            for e in rec:
                v = unval(e['sv'])
                kw = {} if str(v) == e['fv'] and not isinstance(v, float) else dict(fileval=e['fv'])
                ents.append(sql.SQLEntry(key=e['k'], sqlval=v, **kw))
            if sc.get('nest') and len(ents) > 1:
                ents = [ents[0], ents[1:]] if len(ents) % 2 else [[ents[0], [ents[1]]]] + ents[2:]
            plist.append(ents)
        study = batch.ParameterStudy(machines=ms[0] if sc.get('single') and len(ms) == 1 else ms, templates=ts,
                                     params_lst=plist, study_name=cfg['study'], db_name=cfg['db'],
                                     db_table=cfg['table'], calc_root=root, calc_dir_prefix=cfg['prefix'])
        exc, _ = call(study.write_input, mode=w['mode'], backup=w['backup'], sleep=w['sleep'], excl=w['excl'])
        ev = dict(w)
        ev['exc'] = exc
        ev['snap'] = snapshot(root, cfg) if os.path.isdir(root) else dict(files=[], dbs=[])
        evs.append(ev)
        if exc:
            break
    return dict(cfg=cfg), evs


if __name__ == '__main__':
    main(globals())
