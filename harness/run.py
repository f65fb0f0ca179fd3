#!/usr/bin/env python3
"""Decide one property: model-check its specification, run the specification's
scenarios and seeded random ones on the real code, validate the recorded traces
against the specification (all with TLC).

exit 0: held on everything explored; 1: VIOLATION line; 2: machinery failure.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, argparse, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import prepare
from registry import CHECKS

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

TRACE_TLA = '''---- MODULE TraceRun ----
EXTENDS %(mod)s, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, alive
tvars == <<tr, l, st, alive>>
TraceInit == tr \\in 1..Len(Traces) /\\ l = 0 /\\ alive = TRUE
             /\\ st = (IF Len(Traces[tr].events) > 0 /\\ Traces[tr].events[1].op = "crash" THEN <<>> ELSE InitSt(Traces[tr]))
TraceNext ==
  /\\ alive
  /\\ l < Len(Traces[tr].events)
  /\\ l' = l + 1
  /\\ tr' = tr
  /\\ LET ev == Traces[tr].events[l+1]
         bad == Bad(st, ev)
     IN IF bad = {}
        THEN alive' = TRUE /\\ st' = Post(st, ev)
        ELSE /\\ PrintT("BAD " \\o ToJson(<<tr, l+1, bad>>))
             /\\ alive' = FALSE /\\ st' = st
TraceSpec == TraceInit /\\ [][TraceNext]_tvars
====
'''
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'


class Machinery(Exception):
    pass


def tlc(workdir, tla, cfg, env=None, workers=4, timeout=800, extra=(), heap='6g'):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + workdir, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [tla]
    p = subprocess.run(cmd, cwd=workdir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


STAT = re.compile(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left', re.M)


def stats(out):
    m = STAT.findall(out)
    return (int(m[-1][0]), int(m[-1][1]), int(m[-1][2])) if m else (0, 0, -1)


def printed(out, tag):
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + ' '):
            try:
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
            except ValueError:
                raise Machinery('unparsable TLC output line: %r' % line[:300])
    return res


def stage_specs(workdir):
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(VERIF, 'spec', f), workdir)


def model_check(mod, tier, workdir, seed):
    """Exhaustive checking of <mod>MC; returns (stats, scenarios)."""
    cfg = mod + 'MC.cfg'
    if tier == 'thorough' and os.path.exists(os.path.join(workdir, mod + 'MC_thorough.cfg')):
        cfg = mod + 'MC_thorough.cfg'
    if not os.path.exists(os.path.join(workdir, cfg)):
        return None, []
    rc, out = tlc(workdir, mod + 'MC.tla', cfg, workers=4, timeout=850)
    gen, dist, left = stats(out)
    if rc != 0 or left != 0 or 'No error has been found' not in out:
        raise Machinery('model checking of %s failed (rc=%s):\n%s' % (mod, rc, out[-3000:]))
    return dict(module=mod + 'MC', cfg=cfg, generated=gen, distinct=dist), printed(out, 'SC')


def run_driver(group, prop, tier, seed, sandbox, scen, workdir):
    sf = os.path.join(workdir, group + '-mc.json')
    of = os.path.join(workdir, group + '-traces.json')
    json.dump(scen, open(sf, 'w'))
    env = prepare.driver_env(sandbox)
    cmd = [prepare.PY, os.path.join(VERIF, 'drivers', group + '.py'), '--mc', sf, '--out', of,
           '--seed', str(seed), '--tier', tier, '--work', os.path.join(workdir, 'work'), '--prop', prop]
    p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', timeout=800, cwd=workdir)
    if p.returncode not in (0, 3):
        raise Machinery('driver %s failed rc=%s:\n%s' % (group, p.returncode, p.stdout[-3000:]))
    return json.load(open(of)), p.stdout


def validate(mod, traces, workdir, workers=4):
    """Run the trace specification; returns (bads, gen, dist).
    bads: list of (trace index, event index, [clauses])."""
    open(os.path.join(workdir, 'TraceRun.tla'), 'w').write(TRACE_TLA % dict(mod=mod))
    open(os.path.join(workdir, 'TraceRun.cfg'), 'w').write(TRACE_CFG)
    idx = list(range(len(traces)))
    bads, tot_gen, tot_dist = [], 0, 0
    for attempt in range(12):
        tf = os.path.join(workdir, 'traces.json')
        json.dump([{k: v for k, v in traces[i].items() if k != 'scenario'} for i in idx], open(tf, 'w'))
        if not idx:
            break
        rc, out = tlc(workdir, 'TraceRun.tla', 'TraceRun.cfg', env={'TRACES': tf}, workers=workers)
        gen, dist, left = stats(out)
        got = [(idx[b[0] - 1], b[1] - 1, sorted(b[2])) for b in printed(out, 'BAD')]
        if rc == 0 and left == 0:
            bads += got
            tot_gen += gen
            tot_dist += dist
            seen = {b[0] for b in got}
            want = len(idx) + sum(len(traces[i]['events']) for i in idx)
            cut = sum(len(traces[b[0]]['events']) - b[1] - 1 for b in got)
            if dist != want - cut:
                raise Machinery('trace validation visited %d states, expected %d\n%s' % (dist, want - cut, out[-2000:]))
            return bads, tot_gen, tot_dist
        # evaluation error: find the trace, report it, go on without it
        m = re.findall(r'/\\ tr = (\d+)', out)
        ml = re.findall(r'/\\ l = (\d+)', out)
        if rc == -9 or 'rror' not in out:
            raise Machinery('trace validation failed rc=%s:\n%s' % (rc, out[-3000:]))
        if m:
            t = idx[int(m[-1]) - 1]
        elif 'TraceRun' in out and 'Computing initial states' in out:
            # the header of some trace: halve
            lo = list(idx)
            while len(lo) > 1:
                h = lo[:len(lo) // 2]
                json.dump([{k: v for k, v in traces[i].items() if k != 'scenario'} for i in h], open(tf, 'w'))
                rc2, o2 = tlc(workdir, 'TraceRun.tla', 'TraceRun.cfg', env={'TRACES': tf}, workers=workers)
                lo = h if rc2 != 0 and not re.search(r'/\\ tr = ', o2) else lo[len(lo) // 2:]
            t = lo[0]
        else:
            raise Machinery('trace validation failed rc=%s:\n%s' % (rc, out[-3000:]))
        msg = re.sub(r'\s+', ' ', out[out.find('Error:'):])[:600]
        bads.append((t, int(ml[-1]) if ml else 0, ['ANY:outside-spec-domain ' + msg]))
        idx.remove(t)
    else:
        return bads, tot_gen, tot_dist
    return bads, tot_gen, tot_dist


def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop]


def clause_applies(clause, prop):
    head, _, rest = clause.partition(':')
    return not rest or head == 'ANY' or prop in head.split(',')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', default=None)
    ap.add_argument('--replay', default=None, help='re-run one stored scenario')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    prop = a.prop
    spec = CHECKS[prop]
    workdir = a.keep or tempfile.mkdtemp(prefix='pwv-%s-' % prop)
    os.makedirs(workdir, exist_ok=True)
    try:
        rc = decide(prop, spec, tier, a, workdir, t0)
    except Machinery as e:
        print('MACHINERY-FAILURE property=%s %s' % (prop, e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('MACHINERY-FAILURE property=%s timeout %s' % (prop, e.cmd[:4]))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(workdir, ignore_errors=True)
    return rc


def decide(prop, spec, tier, a, workdir, t0):
    stage_specs(workdir)
    sandbox = prepare.prepare(workdir)
    if sandbox.get('broken'):
        raise Machinery('cannot build the code under test: ' + sandbox['broken'])
    mc_stats, allbad, samples, kinds = [], [], [], {}
    n_traces = n_events = gen = dist = 0
    distinct = set()
    for part in spec['parts']:
        mod, group = part['spec'], part['driver']
        if prop not in open(os.path.join(workdir, mod + '.tla')).read():
            raise Machinery('module %s states nothing about %s' % (mod, prop))
        scen = []
        if a.replay:
            scen = []
        elif part.get('mc', True):
            st, scen = model_check(mod, tier, workdir, a.seed)
            if st:
                mc_stats.append(st)
        wd = tempfile.mkdtemp(prefix=group + '-', dir=workdir)
        stage_specs(wd)
        if a.replay:
            rp = json.load(open(a.replay))
            if rp['spec'] != mod or rp['driver'] != group:
                continue
            scen = [dict(rp['trace']['scenario'], __only__=True)]
        traces, log = run_driver(group, prop, tier, a.seed, sandbox, scen, wd)
        if not traces and not a.replay:
            raise Machinery('driver %s recorded no trace' % group)
        bads, g, d = validate(mod, traces, wd)
        gen += g; dist += d
        n_traces += len(traces)
        n_events += sum(len(t['events']) for t in traces)
        for t in traces:
            distinct.add(hashlib.md5(json.dumps(t['scenario'], sort_keys=True).encode()).hexdigest())
            for ev in t['events']:
                k = group + '.' + str(ev.get('op', '?'))
                kinds[k] = kinds.get(k, 0) + 1
        if traces and len(samples) < 4:
            for t in (traces[0], traces[len(traces) // 2]):
                s = json.dumps(dict(driver=group, scenario=t['scenario'], first_event=t['events'][0] if t['events'] else None))
                samples.append(s[:1500])
        for (ti, ei, cl) in bads:
            cl = [c for c in cl if clause_applies(c, prop)]
            if cl:
                allbad.append((mod, group, traces[ti], ei, cl))
        shutil.rmtree(wd, ignore_errors=True) if not a.keep else None
    kf = known_findings(prop)
    viol, knownhit = [], {}
    for (mod, group, tr, ei, cl) in allbad:
        tag = tr['events'][ei].get('tag', '') if ei < len(tr['events']) else ''
        rest = []
        for c in cl:
            hit = [k for k in kf if k.get('tag') and k['tag'] == tag and c.split(':')[-1].split(' ')[0] in k['clauses']]
            if hit:
                knownhit[hit[0]['id']] = hit[0]
            else:
                rest.append(c)
        if rest:
            viol.append((mod, group, tr, ei, rest))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # one violation of each kind first
    seen, first, later = set(), [], []
    for v in viol:
        (later if set(v[4]) <= seen else first).append(v)
        seen |= set(v[4])
    viol = first + later
    for i, (mod, group, tr, ei, cl) in enumerate(viol[:5]):
        rp = os.path.join('evidence', 'replays', '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, spec=mod, driver=group, event_index=ei, clauses=cl, trace=tr),
                  open(os.path.join(VERIF, rp), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  clauses: %s' % '; '.join(cl)[:600])
        ev = tr['events'][ei] if ei < len(tr['events']) else {}
        print('  event %d: %s' % (ei, json.dumps(ev)[:350]))
    if len(viol) > 5:
        print('  ... and %d more violating traces' % (len(viol) - 5))
        cnt = {}
        for v in viol:
            for c in v[4]:
                cnt[c[:120]] = cnt.get(c[:120], 0) + 1
        print('  traces by clause: ' + '; '.join('%s %d' % x for x in sorted(cnt.items())))
    ev = dict(property=prop, tier=tier, seed=a.seed, level='model_checking',
              coverage=dict(states=sum(s['distinct'] for s in mc_stats) + dist,
                            transitions=sum(s['generated'] for s in mc_stats) + gen,
                            traces_validated_against_impl=n_traces,
                            distinct_scenarios=len(distinct), events_validated=n_events,
                            model_checking_runs=mc_stats, events_by_kind=kinds, samples=samples),
              assumptions=spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d model states, %d traces / %d events validated, %d violating, %.1f s'
          % (prop, tier, sum(s['distinct'] for s in mc_stats), n_traces, n_events, len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
