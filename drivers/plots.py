import struct
import numpy as np
from _base import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt, colors
from matplotlib.ticker import FixedLocator
from pwtools import mpl, kpath

WORKERS = 8
PAL = {1: 'tab:red', 2: (0, .5, 0), 3: 'b', 4: '#123456'}
HEX = {colors.to_hex(v): k for k, v in PAL.items()}
SPINES = ['left', 'right', 'bottom', 'top']


def from_mc(x):
    return dict(ops=x, seed=sum((i + 1) * len(repr(o)) for i, o in enumerate(x)))


def gen(rng, tier):
    res, R = [], rng.choice
    for k in range(160 if tier == 'quick' else 1500):
        ops, P = [], []
        for i in range(rng.randint(4, 12)):
            q = rng.random()
            if not P or (q < .08 and len(P) < 4):
                kind = R(['2d', '2d', '2d', '2d', '2d', '3d', 'grid'])
                if kind == 'grid':
                    ops.append(dict(op='grid'))
                    P.append(['grid', {}])
                else:
                    n = R([1, 1, 2, 3])
                    ops.append(dict(op='new', proj=kind, n=n, clean=R([0, 1]) if kind == '3d' else 0))
                    P += [[kind, 1] for j in range(n)]
                continue
            if q < .11: ops.append(dict(op='bad')); continue
            if q < .13:
                ks = [[0, 0, 0]]
                if rng.random() < .5: ks[0][rng.randrange(3)] = rng.randint(1, 5)
                for i in range(rng.randint(0, 3)):
                    k = list(ks[-1])
                    k[rng.randrange(3)] += R([-3, -2, -1, 1, 2, 5])
                    ks.append(k)
                if rng.random() < .25: ks = []
                n = rng.randint(2, 6)
                ops.append(dict(op='disp', ks=ks, frac=[[rng.randint(-9, 9) for i in range(3)] for k in ks], syms=[R(['A', 'K', 'M']) for k in ks], coords=R(['', 'cart', 'frac']),
                                path=sorted(rng.sample(range(30), n)), freqs=[[rng.randint(-50, 50) for i in range(n)] for b in range(rng.randint(1, 3))],
                                ylim=R([[], [], [-60, 70], [-10, 20]]), dos=R([[], [[rng.randint(-50, 50), rng.randint(0, 9)] for i in range(rng.randint(2, 5))]])))
                P.append(['disp', 0])
                continue
            if q < .16: ops.append(dict(op='shade', n=rng.randint(2, 12))); continue
            p = rng.randint(1, len(P))
            kind, v = P[p - 1]
            if kind == 'disp': continue
            if kind == 'grid':
                loc = R(SPINES)
                if v.get(loc, 0) == 3: continue
                v[loc] = v.get(loc, 0) + 1
                ops.append(dict(op='axis', p=p, loc=loc, label=R(['', 'lab', 'E [eV]']), off=R([0, 20, 50, 75]), ws=R([0, 50, 100]), ticks=sorted(rng.sample(range(10), rng.randint(0, 4))), sharex=rng.random() < .3, sharey=rng.random() < .3))
            elif kind == '3d':
                n, m = rng.randint(1, 4), rng.randint(1, 5)
                mat = lambda: [[rng.randint(-9, 9) for i in range(m)] for j in range(R([1, n]))]
                ops.append(dict(op='lines3', p=p, x=mat(), z=mat(), y=[rng.randint(-9, 9) for i in range(n)]))
            else:
                a = rng.randint(1, v)
                names = [rng.randint(1, v) for i in range(rng.randint(1, 3))]
                w = R(['twin', 'twin', 'line', 'line', 'line', 'line', 'legend', 'legend', 'collect', 'color', 'color', 'save' if rng.random() < .3 else 'line'])
                if w == 'twin':
                    if v == 3: continue
                    P[p - 1][1] += 1
                    ops.append(dict(op='twin', p=p))
                elif w == 'line': ops.append(dict(op='line', p=p, a=a, label=R(['', 'l%d' % i, 'l%d' % i, 'same']), bar=rng.random() < .3))
                elif w == 'legend': ops.append(dict(op='legend', p=p, a=a, names=R([[], names])))
                elif w == 'collect': ops.append(dict(op='collect', p=p, names=names))
                elif w == 'color': ops.append(dict(op='color', p=p, a=a, axis=R('xy'), color=rng.randint(1, 4), spine=R(['', 'left', 'left'] + SPINES), hide=R(['', ''] + SPINES)))
                else: ops.append(dict(op='save', p=p))
        res.append(dict(ops=ops, seed=rng.randrange(10**6)))
    return res


def code(c, alpha=True):
    if isinstance(c, str) and c.lower() == 'none': return 9
    r = colors.to_rgba(c)
    if r[3] == 0: return 9
    h = colors.to_hex(c)
    return HEX.get(h, 0 if h == colors.to_hex('black') else -1)


def lab(x):
    s = x.get_label()
    return '' if s.startswith('_') else s


def colours(ax):
    d = {}
    for n, axis in (('x', ax.xaxis), ('y', ax.yaxis)):
        d[n + 'l'] = code(axis.label.get_color())
        c = set()
        for t in axis.get_major_ticks() + axis.get_minor_ticks():
            c |= {code(t.tick1line.get_color()), code(t.label1.get_color())}
        for w in ('major', 'minor'):
            p = axis.get_tick_params(which=w)
            c |= {code(p.get('color', 'black')), code(p.get('labelcolor', 'black'))}
        d[n + 't'] = c.pop() if len(c) == 1 else -1
    for s in SPINES: d[s] = code(ax.spines[s].get_edgecolor())
    return d


def image_ax(ax):
    leg = ax.get_legend()
    r = dict(lines=[lab(l) for l in ax.lines], bars=[lab(c) for c in ax.containers], curves=[],
             leg=['-'] if leg is None else [t.get_text() for t in leg.get_texts()])
    if hasattr(ax, 'zaxis'):
        r['curves'] = [[[int(round(x)) if np.isfinite(x) else 99 for x in np.asarray(v, float)] for v in l.get_data_3d()] for l in ax.lines]
        r['col'] = dict(xl=0, yl=0, xt=0, yt=0, left=0, right=0, bottom=0, top=0)
    elif hasattr(ax, 'parasites'): r['col'] = dict(xl=0, yl=0, xt=0, yt=0, left=0, right=0, bottom=0, top=0)
    else: r['col'] = colours(ax)
    return r


def image(P):
    res = []
    for p in P:
        if 'grid' in p:
            ex = []
            for e in p['par']:
                off = e['line'].offset_transform.transform((0, 0)) * 72. / p['fig'].dpi
                par, loc = e['par'], e['loc']
                j = lambda w: bool(getattr(par, 'get_shared_%s_axes' % w)().joined(par, p['host']))
                L = e['line'].axis.get_major_locator()
                ex.append(dict(loc=loc, label=par.get_xlabel() if loc in ('top', 'bottom') else par.get_ylabel(), off=[int(round(x)) for x in off],
                               ticks=[int(round(t)) for t in L()] if isinstance(L, FixedLocator) else [], sharex=j('x'), sharey=j('y')))
            b = p['host'].get_position()
            res.append(dict(kind='grid', proj='2d', size=[], clean=0, axes=[image_ax(p['host'])], extra=ex,
                            pos=dict(left=int(round(1000 * b.x0)), bottom=int(round(1000 * b.y0)), right=int(round(1000 * b.x1)), top=int(round(1000 * b.y1)))))
        elif 'disp' in p:
            ax, ad, q = p['ax'], p['axdos'], p['disp']
            sp = bool(q['ks'])
            res.append(dict(kind='disp', proj='2d', size=[], clean=0, axes=[], pos=[], extra=[dict(
                bands=[[ints(l.get_xdata()), ints(l.get_ydata())] for l in ax.lines], ticks=ints(ax.get_xticks()) if sp else [],
                verts=[ints([g[0][0], g[0][1], g[1][1]] if q['ylim'] else [g[0][0]]) if g[0][0] == g[1][0] else [99999] for c in ax.collections for g in c.get_segments()],
                labels=[t.get_text().replace('\n', '|') for t in ax.get_xticklabels()] if sp else [], xlim=ints(ax.get_xlim()), ylim=ints(ax.get_ylim()) if q['ylim'] else [],
                dos=[ints(ad.lines[0].get_xdata()), ints(ad.lines[0].get_ydata())] if ad is not None else [])]))
        else:
            o = p['plot']
            three = hasattr(o.ax, 'zaxis')
            clean = 0
            if three:
                white = [colors.to_rgba(a.pane.get_facecolor()) == (1., 1., 1., 1.) for a in (o.ax.xaxis, o.ax.yaxis, o.ax.zaxis)] + [not o.ax._draw_grid]
                clean = 1 if all(white) else 2 if any(white) else 0
            w, h = o.fig.get_size_inches()
            res.append(dict(kind='plot', proj='3d' if three else '2d', size=[int(round(10 * w)), int(round(10 * h)), int(o.fig.dpi)], clean=clean,
                            axes=[image_ax(getattr(o, n)) for n in p['names']], extra=[], pos=[]))
    return res


def ints(x):
    return [int(round(v)) if abs(v - round(v)) < 1e-9 else 99999 for v in np.asarray(x, float)]


def kind(fn):
    b = open(fn, 'rb').read(300)
    return 'png' if b[:4] == b'\x89PNG' else 'pdf' if b[:4] == b'%PDF' else 'svg' if b'<?xml' in b else 'ps' if b[:2] == b'%!' else 'other'


def arr(rng, cols, n):
    if len(cols) == 1 and (n > 1 or rng.random() < .5): return np.array(cols[0], dtype=float)
    return np.array(cols, dtype=float).T


def run(sc, work):
    rng = random.Random(sc['seed'])
    R, evs, P = rng.choice, [], []
    for no, o in enumerate(sc['ops']):
        o = dict(o)
        x, op = '', o['op']
        if op == 'new':
            w, h, dpi = R([2, 3, 4]), R([2, 3]), R([20, 30, 50])
            o['size'] = [10 * w, 10 * h, dpi]
            kw = dict(figsize=(w, h), dpi=dpi)
            if o['clean']: kw['clean'] = True
            three = o['proj'] == '3d'
            names = [['a', 1, 'etot'][i] for i in range(o['n'])]
            pr = dict(projection=o['proj']) if three or rng.random() < .5 else {}
            f = mpl.fig_ax3d if three else mpl.fig_ax
            how = R(['prep', 'plot', 'pair', 'kw'] if o['n'] == 1 else ['prep'])
            if how == 'prep': x, r = call(mpl.prepare_plots, R([names, tuple(names)]), **dict(kw, **pr))
            else: x, r = call(lambda: {names[0]: mpl.Plot(**dict(kw, **pr)) if how == 'plot' else mpl.Plot(*f(**kw)) if how == 'pair' else mpl.Plot(**dict(zip(['fig', 'ax'], f(**kw))))})
            o.update(names=[str(n) for n in names], keys=[], own=False)
            if not x:
                o['keys'] = [str(n) for n in r]
                figs = [q.fig for q in r.values()]
                o['own'] = all(q.ax.figure is q.fig for q in r.values()) and len({id(f) for f in figs}) == len(figs) and not {id(f) for f in figs} & {id(q['fig']) for q in P}
                P += [dict(plot=q, fig=q.fig, names=['ax']) for q in r.values()]
        elif op == 'bad':
            fig, ax = plt.subplots()
            x, _ = call(R([lambda: mpl.Plot(fig=fig), lambda: mpl.Plot(ax=ax), lambda: mpl.Plot(projection='4d'), lambda: mpl.prepare_plots(['a'], projection='4d'), lambda: mpl.prepare_plots(['a'], '3')]))
        elif op == 'twin':
            q = P[o['p'] - 1]
            n = 'ax%d' % (len(q['names']) + 1)
            setattr(q['plot'], n, q['plot'].ax.twinx())
            q['names'].append(n)
        elif op == 'line':
            q = P[o['p'] - 1]
            ax = getattr(q['plot'], q['names'][o['a'] - 1])
            kw = dict(label=o['label']) if o['label'] else R([{}, dict(label='_hidden')])
            (ax.bar if o['bar'] else ax.plot)([1, 2], [rng.random(), 1], **kw)
        elif op == 'legend':
            q = P[o['p'] - 1]
            names = [q['names'][i - 1] for i in o['names']]
            kw = R([{}, dict(loc='lower left')])
            if o['names']: kw['axnames'] = R([names, tuple(names)])
            if o['a'] != 1 or rng.random() < .3: kw['legaxname'] = q['names'][o['a'] - 1]
            x, _ = call(q['plot'].legend, **kw)
        elif op == 'collect':
            q = P[o['p'] - 1]
            names = [q['names'][i - 1] for i in o['names']]
            x, r = call(lambda: [list(y) for y in (q['plot'].collect_legends() if names == ['ax'] and rng.random() < .5 else q['plot'].collect_legends(R([names, tuple(names)])) if rng.random() < .5 else mpl.collect_legends(*[getattr(q['plot'], n) for n in names]))])
            o.update(labels=[] if x else [str(y) for y in r[1]], handles=[] if x else [y.get_label() for y in r[0]])
        elif op == 'color':
            q = P[o['p'] - 1]
            ax = getattr(q['plot'], q['names'][o['a'] - 1])
            if rng.random() < .3: ax.minorticks_on()
            kw = {}
            if o['axis'] != 'y' or rng.random() < .5: kw['axis'] = o['axis']
            if o['spine'] != 'left' or rng.random() < .5: kw['spine_loc'] = o['spine'] or None
            if o['hide']: kw['spine_invisible'] = o['hide']
            x, _ = call(mpl.color_ax, ax, PAL[o['color']], **kw)
        elif op == 'lines3':
            ax = P[o['p'] - 1]['plot'].ax
            x, r = call(mpl.plotlines3d, ax, arr(rng, o['x'], len(o['y'])), np.array(o['y'], float), arr(rng, o['z'], len(o['y'])), **R([{}, dict(color='b')]))
            if not x and r is not ax: x = 'other_axis_returned'
        elif op == 'grid':
            num = R([None, 100 + no])
            x, r = call(mpl.make_axes_grid_fig, **({} if num is None else dict(num=num)))
            if not x:
                if r[1] not in r[0].axes or (num is not None and r[0].number != num): x = 'figure'
                P.append(dict(grid=1, fig=r[0], host=r[1], par=[]))
        elif op == 'axis':
            q = P[o['p'] - 1]
            if o['sharex' if o['loc'] in ('top', 'bottom') else 'sharey']: o['ticks'] = []
            kw = dict(loc=o['loc'], label=o['label'], off=o['off'], wsadd=o['ws'] / 1000.)
            if o['ticks']: kw['ticks'] = R([o['ticks'], np.array(o['ticks'], float)])
            for s in ('sharex', 'sharey'):
                if o[s]: kw[s] = True
            if o['loc'] == 'bottom' and rng.random() < .5: del kw['loc']
            if o['off'] == 50 and rng.random() < .5: del kw['off']
            if o['ws'] == 100 and rng.random() < .5: del kw['wsadd']
            x, r = call(mpl.new_axis, q['fig'], q['host'], **kw)
            o.update(same=False, named=False)
            if not x:
                par, name = r[2], o['loc'] + '2'
                o['same'] = r[0] is q['fig'] and r[1] is q['host'] and par in q['host'].parasites and par not in [e['par'] for e in q['par']] and all(e['par'] in q['host'].parasites for e in q['par'])
                o['named'] = name in par.axis and par.axis[name].get_visible() and not any(par.axis[s].get_visible() for s in SPINES)
                q['par'].append(dict(par=par, loc=o['loc'], line=par.axis[[k for k in par.axis if k[-1].isdigit()][0]]))
        elif op == 'disp':
            kw = dict(ylim=R([tuple, list])(o['ylim'])) if o['ylim'] else {}
            A = [np.array(o['path'], float), np.array(o['freqs'], float).T]
            if o['ks']:
                A.append(kpath.SpecialPointsPath(ks=np.array(o['ks'], float), ks_frac=np.array(o['frac'], float), symbols=o['syms']))
                if rng.random() < .5: kw['special_points_path'] = A.pop()
                if o['coords'] or rng.random() < .3: kw['show_coords'] = o['coords'] or None
            if o['dos']: kw['dos'] = np.array(o['dos'], float)
            f, ax = mpl.fig_ax() if rng.random() < .5 else (None, None)
            if ax is not None: kw['ax'] = ax
            if rng.random() < .3: kw.update(color='b', lw=2)
            args = A[:2] + ([kw['dos']] if o['dos'] else [])
            sn = [a.copy() for a in args]
            x, r = call(kpath.plot_dis, *A, **kw)
            o.update(same=False, kept=all(np.array_equal(a, b) for a, b in zip(args, sn)))
            if not x:
                o['same'] = (ax is None or r[1] is ax) and r[0] is r[1].figure and (r[2] is None) == (not o['dos']) and (r[2] is None or (r[2].get_shared_y_axes().joined(r[2], r[1]) and r[2] is not r[1]))
                P.append(dict(disp=o, fig=r[0], ax=r[1], axdos=r[2]))
        elif op == 'save':
            q = P[o['p'] - 1]
            exts, dpi = R([['png'], ['png'], ['png', 'pdf'], ['svg', 'png']]), R([20, 40])
            d = os.path.join(work, 's%d' % no)
            os.makedirs(d)
            kw = {} if exts == ['png'] and rng.random() < .5 else dict(ext=exts)
            x, _ = call(q['plot'].savefig, os.path.join(d, 'a.b'), dpi=dpi, **kw)
            fs = sorted(os.listdir(d))
            o.update(exts=exts, files=[[f[4:] if f.startswith('a.b.') else f, kind(os.path.join(d, f))] for f in fs], dims=[],
                     wantdims=[int(round(v * dpi)) for v in q['fig'].get_size_inches()])
            if 'a.b.png' in fs: o['dims'] = list(struct.unpack('>II', open(os.path.join(d, 'a.b.png'), 'rb').read(24)[16:]))
        elif op == 'shade':
            n = o['n']
            i6 = lambda v: int(round(v * 10**6)) if 0 <= v <= 2 else -10**6
            x, r = call(lambda: ([i6(v[0]) if v == (v[0], 1 - v[0]) else -10**6 for v in mpl.smooth_color_func(n, lambda z: (z, 1 - z))], [i6(mpl.smooth_color(i, n)) for i in range(n)]))
            o.update(list=[] if x else r[0], one=[] if x else r[1])
        evs.append(dict(o, exc=x, img=image(P)))
        # nothing to go on with
        if x and op != 'bad': break
    plt.close('all')
    return {}, evs


if __name__ == '__main__':
    main(globals())
