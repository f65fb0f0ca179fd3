import os, shutil
from _base import *
from pwtools import common


def from_mc(x):
    return dict(ops=x, rel=False)


def gen(rng, tier):
    res = []
    names = ['a.txt', 'b', 'dir', 'calc.db']
    for k in range(60 if tier == 'quick' else 500):
        ops, prefix = [], rng.choice(['.', '.', '_', '.bak', '-'])
        if rng.random() < .4:   # a directory with a link in it
            ops += [dict(op='mkdir', p=['dir']), dict(op='write', p=['a.txt'], c='old'), dict(op='link', p=['dir', 'ln'], t=['a.txt'], how=rng.choice(['abs', 'rel'])), dict(op='backup', p=['dir'], prefix=prefix)]
        for i in range(rng.randint(6, 18)):
            r = rng.random()
            n = rng.choice(names)
            if r < .25:
                ops.append(dict(op='write', p=[n] if rng.random() < .6 else ['dir', rng.choice(['x', 'y.0', 'a.txt'])],
                                c=rng.choice(['', 'abc', 'line1\nline2\n', '\x00\xff\r\n', 'x' * 5000])))
            elif r < .35:
                ops.append(dict(op='mkdir', p=rng.choice([['dir'], ['dir', 'sub'], ['b%s1' % prefix], ['dir', 'sub', 'deep'], ['dir', 'e']])))
            elif r < .42:
                ops.append(dict(op='link', p=[rng.choice(['ln', 'a.txt%s0' % prefix, 'ln2'])], t=[rng.choice(names + ['nothing'])]))
            elif r < .48:
                ops.append(dict(op='link', p=['dir', rng.choice(['ln', 'ln3'])], t=[rng.choice(['a.txt', 'b', 'calc.db'])], how=rng.choice(['abs', 'rel'])))
            elif r < .58:
                ops.append(dict(op='rm', p=[rng.choice(names) + prefix + str(rng.choice([0, 0, 1, 2]))] if rng.random() < .8 else [n]))
            else:
                ops.append(dict(op='backup', p=rng.choice([[n], [n], ['dir', 'x'], ['dir', 'sub'], ['ln'], ['nope']]), prefix=prefix))
        if rng.random() < .3:   # many backups: numbering beyond 9
            ops.append(dict(op='write', p=['many'], c='m'))
            ops += [dict(op='backup', p=['many'], prefix=prefix) for i in range(12)]
        for o in ops:
            o.setdefault('c', ''); o.setdefault('t', []); o.setdefault('prefix', prefix)
        res.append(dict(ops=ops, rel=rng.random() < .5))
    return res


def snapshot(root):
    res = []
    for d, dn, fn in os.walk(root):
        rel = [] if d == root else os.path.relpath(d, root).split(os.sep)
        for n in dn + fn:
            full = os.path.join(d, n)
            if os.path.islink(full):
                res.append(dict(p=rel + [n], k='l', c='', t=os.path.relpath(os.path.join(d, os.readlink(full)), root).split(os.sep)))
            elif os.path.isdir(full):
                res.append(dict(p=rel + [n], k='d', c='', t=[]))
            else:
                res.append(dict(p=rel + [n], k='f', c=open(full, 'rb').read().decode('latin1'), t=[]))
    return res


def run(sc, work):
    root = os.path.join(work, 'root')
    os.makedirs(root)
    if sc['rel']:
        os.chdir(root)
    evs = []
    for o in sc['ops']:
        full = os.path.join(root, *o['p'])
        exc = ''
        if o['op'] == 'write':
            if os.path.isdir(full) or os.path.islink(full) or not os.path.isdir(os.path.dirname(full)):
                continue
            open(full, 'wb').write(o['c'].encode('latin1'))
        elif o['op'] == 'mkdir':
            if os.path.lexists(full) or not os.path.isdir(os.path.dirname(full)):
                continue
            os.mkdir(full)
        elif o['op'] == 'link':
            tgt = os.path.join(root, *o['t'])
            if os.path.lexists(full) or len(o['p']) > 1 and not (os.path.isdir(os.path.dirname(full)) and os.path.isfile(tgt)):
                continue
            os.symlink(tgt if o.get('how') != 'rel' else os.path.relpath(tgt, os.path.dirname(full)), full)
        elif o['op'] == 'rm':
            if not os.path.lexists(full):
                continue
            if os.path.isdir(full) and not os.path.islink(full):
                shutil.rmtree(full)
            else:
                os.remove(full)
        elif o['op'] == 'backup':
            if os.path.isdir(full) and any(not os.path.exists(os.path.join(d, n)) for d, dn, fn in os.walk(full) for n in dn + fn):
                continue        # holds a dangling link: can't be copied
            src = os.path.join(*o['p']) if sc['rel'] else full
            kw = {} if o['prefix'] == '.' else dict(prefix=o['prefix'])
            exc, _ = call(common.backup, src, **kw)
        evs.append(dict(o, exc=exc, snap=snapshot(root)))
    return {}, evs


if __name__ == '__main__':
    main(globals())
