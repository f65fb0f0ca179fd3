#!/usr/bin/env python3
"""Mutation run of one check (development only; not registered).
tools/mutate.py PROP FILE[:func,func,Class.meth,...] [--max N] [--seed S] [--par N] [--out F]
Small AST edits of the named functions; the driver is run on the mutated tree, traces differing from those of
the unchanged tree are validated.  Prints the mutants which are not caught."""
import argparse, ast, copy, json, os, random, shutil, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import run as H, prepare as P


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, new, what):
        a, e = pos(n)
        out.append((n.lineno, b[:a] + new.encode() + b[e:], '%d: %s  ->  %s' % (n.lineno, b[a:e].decode().replace('\n', ' ')[:90], new.replace('\n', ' ')[:90])))
    seg = lambda n: b[slice(*pos(n))].decode()

    def visit(n, top=False):
        if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n.value.func) in ('print', 'warnings.warn', 'msg'): return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            M = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
            o = M[type(n.ops[0])]
            add(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            M = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Pow: '*'}
            if type(n.op) in M and not isinstance(n.left, (ast.Constant,)) or (type(n.op) in M and not isinstance(getattr(n.left, 'value', 0), str)):
                add(n, '((%s) %s (%s))' % (seg(n.left), M[type(n.op)], seg(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(n, '(%s)' % seg(n.operand), 'neg')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True: add(n, 'False', 'c')
            elif v is False: add(n, 'True', 'c')
            elif isinstance(v, int):
                add(n, str(v + 1), 'c')
                if v > 0: add(n, str(v - 1), 'c')
            elif isinstance(v, float): add(n, repr(v * 2 + 1 if v == 0 else v * 1.5), 'c')
            elif v is None: pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            add(n, seg(n.func.value), 'copy')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'deepcopy' and len(n.args) == 1:
            add(n, seg(n.args[0]), 'copy')
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    m = copy.deepcopy(n); m.keywords = [q for q in m.keywords if q.arg != k.arg]
                    add(n, ast.unparse(m), 'kw')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            add(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, 'pass', 'del')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if'); add(n.test, 'False', 'if')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'brk')
        for c in ast.iter_child_nodes(n): visit(c)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.Assign)):
            nm = n.name if isinstance(n, ast.FunctionDef) else seg(n.targets[0])
            if (not funcs and isinstance(n, ast.FunctionDef)) or nm in funcs: visit(n)
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                nm = getattr(m, 'name', None) or (seg(m.targets[0]) if isinstance(m, ast.Assign) else None)
                if nm and (not funcs and isinstance(m, ast.FunctionDef) or n.name in funcs or n.name + '.' + nm in funcs): visit(m)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('target', nargs='+')
    ap.add_argument('--max', type=int, default=60); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--par', type=int, default=3); ap.add_argument('--out', default=None); ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    cache = '/tmp/mccache'; os.makedirs(cache, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='mut-'); H.stage_specs(wd)
    muts = []
    for t in a.target:
        f, _, fs = t.partition(':')
        p = os.path.join(P.REPO, f if '/' in f else 'src/pwtools/' + f)
        src = open(p).read()
        for (ln, new, what) in mutants(src, set(fs.split(',')) - {''}):
            try: compile(new.decode(), f, 'exec')
            except SyntaxError: continue
            if new.decode() != src: muts.append((os.path.relpath(p, P.REPO), new, what))
    rng = random.Random(a.seed); tot = len(muts)
    if len(muts) > a.max: muts = rng.sample(muts, a.max)
    muts.sort(key=lambda m: (m[0], int(m[2].split(':')[0])))
    parts = H.CHECKS[a.prop]['parts']
    base = {}
    sb = P.prepare(wd)
    # the mc cache is keyed by the contents of the spec
    import hashlib
    for part in parts:
        mod = part['spec']
        key = hashlib.md5(b''.join(open(os.path.join(wd, x), 'rb').read() for x in sorted(os.listdir(wd)) if x.startswith(mod) and x.endswith(('.tla', '.cfg')))).hexdigest()
        cf = os.path.join(cache, '%s-%s-%s.json' % (mod, a.tier, key))
        if not os.path.exists(cf):
            st, scen = H.model_check(mod, a.tier, wd, 1) if part.get('mc', True) else (None, [])
            json.dump(scen, open(cf, 'w'))
        scen = json.load(open(cf))
        d = tempfile.mkdtemp(dir=wd); H.stage_specs(d)
        tr, log = H.run_driver(part['driver'], a.prop, a.tier, 1, sb, scen, d)
        tr2, log = H.run_driver(part['driver'], a.prop, a.tier, 1, sb, scen, tempfile.mkdtemp(dir=wd))
        nondet = sum(x != y for x, y in zip(tr, tr2))
        base[part['driver']] = (part, scen, tr)
        print('%s %s: %d traces (%d not deterministic), %d mutants of %d' % (a.prop, part['driver'], len(tr), nondet, len(muts), tot), flush=True)
    lock = threading.Lock(); res = {}

    def one(m):
        fn, new, what = m
        d = tempfile.mkdtemp(dir=wd)
        verdict = 'same'; info = ''
        try:
            s2 = dict(sb); s2['root'] = d + '/sut'
            shutil.copytree(sb['root'], s2['root'])
            for k in ('src', 'bin', 'tmp'): s2[k] = s2['root'] + sb[k][len(sb['root']):]
            open(os.path.join(s2['root'], fn), 'wb').write(new)
            for part, scen, tr in base.values():
                w = tempfile.mkdtemp(dir=d); H.stage_specs(w)
                try: t2, log = H.run_driver(part['driver'], a.prop, a.tier, 1, s2, scen, w)
                except H.Machinery as e:
                    verdict = 'broken'; info = str(e)[-200:].replace('\n', ' '); break
                b0 = {json.dumps(t['scenario'], sort_keys=True): t for t in tr}
                diff = [t for t in t2 if b0.get(json.dumps(t['scenario'], sort_keys=True)) != t]
                if not diff: continue
                random.Random(0).shuffle(diff)
                n = len(diff)
                bads, g, ds = H.validate(part['spec'], diff[:40], w, workers=2)
                bads = [x for x in bads if any(H.clause_applies(c, a.prop) for c in x[2])]
                if bads: verdict = 'caught'; info = '%d/%d %s' % (len(bads), n, bads[0][2][:1]); break
                verdict = 'quiet'; info = '%d differ' % n
        except Exception as e:
            verdict = 'error'; info = repr(e)[:300]
        shutil.rmtree(d, ignore_errors=True)
        with lock:
            res.setdefault(verdict, []).append((fn, what, info))
            if verdict != 'caught': print('%-7s %s %s   %s' % (verdict, os.path.basename(fn), what, info), flush=True)
    with ThreadPoolExecutor(a.par) as ex: list(ex.map(one, muts))
    print('%s %s: ' % (a.prop, ' '.join(a.target)) + ', '.join('%s %d' % (k, len(v)) for k, v in sorted(res.items())), flush=True)
    shutil.rmtree(wd, ignore_errors=True)


main()
