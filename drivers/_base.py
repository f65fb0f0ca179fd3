"""Common part of all drivers: run scenarios on the real code, record traces.

A driver defines
    gen(rng, tier)        -> list of scenarios (dicts, JSON-able)
    from_mc(x)            -> scenario or list of scenarios for one TLC-emitted value (optional)
    run(sc, work)         -> (header dict, list of events)
and calls main(globals()).  No expected values are computed in drivers.
"""
import argparse, json, os, random, shutil, signal, sys, traceback, math, warnings
warnings.simplefilter('ignore')

INEXACT = 999999999
NAN = 999999998
BIG = 999999997


def _poison():
    """The content of a new array is not specified: fill it, so that elements which were never
    set don't happen to hold the result of an earlier call."""
    import numpy as np
    def fill(a):
        if a.size and type(a) is np.ndarray:
            if a.dtype.kind in 'fc': a.fill(np.nan)
            elif a.dtype.kind in 'iu': a.fill(-77 if a.dtype.kind == 'i' else 77)
        return a
    e, l = np.empty, np.empty_like
    np.empty = lambda *x, **k: fill(e(*x, **k))
    np.empty_like = lambda *x, **k: fill(l(*x, **k))


try:
    _poison()
except ImportError:
    pass


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout('scenario timed out')


def call(fn, *a, **k):
    """-> (exception class name or '', result)"""
    try:
        return '', fn(*a, **k)
    except Timeout:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return type(e).__name__, None


def snap(x, scale=1, tol=1e-8):
    """float -> int x*scale if on the grid (within tol), else a sentinel."""
    try:
        x = float(x)
    except Exception:
        return INEXACT
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return BIG
    y = x * scale
    r = round(y)
    if abs(y - r) > tol:
        return INEXACT
    if abs(r) >= 2**30:
        return BIG
    return int(r)


def snapr(x, scale=1):
    """float -> rounded int (no grid test)."""
    try:
        x = float(x)
    except Exception:
        return INEXACT
    if math.isnan(x):
        return NAN
    y = x * scale
    if math.isinf(y) or abs(y) >= 2**30:
        return BIG
    return int(round(y))


def nd(a, scale=1, tol=1e-8):
    """array -> {'s': shape, 'd': flat ints}"""
    import numpy as np
    if a is None:
        return {'s': [-1], 'd': []}
    try:
        a = np.asarray(a, dtype=float)
    except Exception:
        return {'s': [-2], 'd': []}
    return {'s': [int(n) for n in a.shape], 'd': [snap(x, scale, tol) for x in a.ravel()]}


def tagged(v):
    """scalar -> tagged string"""
    import numpy as np
    if v is None:
        return 'none'
    if isinstance(v, (bool, np.bool_)):
        return 'b:%d' % int(v)
    if isinstance(v, (int, np.integer)):
        return 'i:%d' % int(v)
    if isinstance(v, (float, np.floating)):
        return 'f:' + repr(float(v))
    if isinstance(v, bytes):
        return 'y:' + v.decode('latin1')
    if isinstance(v, str):
        return 's:' + v
    return '?:' + repr(v)


def clean(x):
    """make JSON-able for TLC: no null, no float, no big int, no empty object"""
    if x is None:
        return '<null>'
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()} if x else []
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    try:
        if int(x) == x:
            return int(x) if abs(int(x)) < 2**31 else BIG
    except Exception:
        pass
    return '<%s>' % type(x).__name__


def main(ns):
    ap = argparse.ArgumentParser()
    for o in ('mc', 'out', 'tier', 'work', 'prop'):
        ap.add_argument('--' + o)
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    rng = random.Random('%s-%s' % (a.seed, ns['__name__'] if ns['__name__'] != '__main__' else os.path.basename(ns['__file__'])))
    os.makedirs(a.work, exist_ok=True)
    mc = json.load(open(a.mc))
    scen = []
    ns['PROP'] = a.prop
    ns['TIER'] = a.tier
    if mc and isinstance(mc[0], dict) and mc[0].get('__only__'):
        s = dict(mc[0]); s.pop('__only__'); scen = [s]
    else:
        for x in mc:
            y = ns['from_mc'](x) if 'from_mc' in ns else x
            scen.extend(y if isinstance(y, list) else [y])
        scen.extend(ns['gen'](rng, a.tier))
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')

    import multiprocessing
    slow = multiprocessing.Value('i', 0)

    def one(i):
        sc = scen[i]
        if slow.value >= 4:     # the code under test hangs: enough evidence recorded
            return None
        w = os.path.join(a.work, 's%d' % i)
        os.makedirs(w)
        cwd = os.getcwd()
        signal.alarm(ns.get('TIMEOUT', 60))
        keep = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        try:
            hdr, evs = ns['run'](sc, w)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if isinstance(e, Timeout):
                with slow.get_lock(): slow.value += 1
            hdr, evs = {}, None
            crash = ''.join(traceback.format_exception(e))[-1500:]
        finally:
            signal.alarm(0)
            sys.stdout, sys.stderr = keep
            os.chdir(cwd)
            shutil.rmtree(w, ignore_errors=True)
        t = dict(hdr)
        t['scenario'] = sc
        if evs is None:
            evs = [dict(op='crash', crash=crash)]
        t['events'] = evs
        return dict({k: (v if k == 'scenario' else clean(v)) for k, v in t.items()})

    nw = ns.get('WORKERS', 1)
    if nw > 1 and len(scen) > 1:
        # independent scenarios in forked processes, results in scenario order
        global _ONE
        _ONE = one
        with multiprocessing.get_context('fork').Pool(nw) as pool:
            traces = pool.map(_call_one, range(len(scen)), chunksize=1)
    else:
        traces = [one(i) for i in range(len(scen))]
    traces = [t for t in traces if t is not None]
    json.dump(traces, open(a.out, 'w'))


def _call_one(i):
    return _ONE(i)
