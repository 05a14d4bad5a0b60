"""Plots of tolerancing tables, order colors, LSF fits and HTML pages of 3D scenes: everything that is drawn is compared with
the table, model or scene it is made from, for all parameters, axis set-ups, colors, viewers and archive formats."""
import itertools
import os
import re
import tarfile
import zipfile
import xml.etree.ElementTree as ET
import numpy as np
import astropy.units as u
from astropy.table import Table
from mc import zoo
from . import _common as C

PARS = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']
VALS = [0., -1., .5, 2., -.25]


def tab(waves, perm, extra):
    rows = []
    n = 0
    for w in waves:
        rows.append(dict.fromkeys(PARS, 0.) | {'wave': w})
        for p in PARS:
            for v in VALS[1:]:
                rows.append(dict.fromkeys(PARS, 0.) | {p: v, 'wave': w})
        # two parameters changed at the same time: not part of the plot for any of them
        rows.append(dict.fromkeys(PARS, 0.) | {'dx': .5, 'rz': 2., 'wave': w})
        rows.append(dict.fromkeys(PARS, 0.) | {'dy': -1., 'dz': -1., 'wave': w})
    for k, r in enumerate(rows):
        r['Rgrat'] = 100. + 7 * ((k * 13) % 31)
        r['Aeffgrat'] = 1. + ((k * 5) % 17)
        r['myR'] = -r['Rgrat']
        r['myA'] = 2 * r['Aeffgrat'] + 1
    rows = [rows[i] for i in {'as is': range(len(rows)), 'reversed': range(len(rows))[::-1],
                              'mixed': sorted(range(len(rows)), key=lambda i: (i * 37) % 101)}[perm]]
    t = Table(rows=rows)
    if extra:
        t.meta['x'] = 1
    return t


def own_lines(t, par, waves, col):
    out = []
    for w in sorted(waves):
        pts = sorted((r[par], r[col]) for r in t if r['wave'] == w and all(r[p] == 0 for p in PARS if p != par))
        x = np.array([p[0] for p in pts])
        out.append((w, np.rad2deg(x) if par[0] == 'r' else x, np.array([p[1] for p in pts])))
    return out


AXT = ['none', 'twin', 'subplot', 'free', 'shared']


def axes(kind):
    from matplotlib.figure import Figure
    fig = Figure()
    ax = fig.add_subplot(1, 2, 1)
    return fig, ax, {'none': lambda: None, 'twin': ax.twinx, 'subplot': lambda: fig.add_subplot(1, 2, 2),
                     'free': lambda: fig.add_axes([.6, .1, .3, .8]), 'shared': lambda: fig.add_subplot(1, 2, 2, sharex=ax)}[kind]()


def lines(ax):
    return [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), ln) for ln in ax.get_lines()]


def rgba(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


def wiggle(ctx, par, axt, perm):
    from marxs.design.tolerancing import DispersedWigglePlotter, WigglePlotter
    for waves in ([12.5], [30., 12.5, 20.]):
        for color, cols in itertools.product([None, 'y', (.3, .4, .5)], [{}, {'R_col': 'myR', 'Aeff_col': 'myA'}]):
            t = tab(waves, perm, color)
            keep = zoo.columns(t)
            fig, ax, a2 = axes(axt)
            kw = dict(cols) if color is None else dict(cols, axes_facecolor=color)
            n0 = len(fig.axes)
            DispersedWigglePlotter().plot_wiggle(t, par, PARS, ax, axt=a2, **kw)
            ctx.step()
            ctx.state(par, axt, len(waves), color, bool(cols))
            for c in keep:
                ctx.same(np.array(t[c]), keep[c], f'table column {c}')
            ctx.same(len(fig.axes), n0 + (axt == 'none'), 'number of axes')
            other = a2 if a2 is not None else [a for a in fig.axes if a is not ax][0]
            for a, col, st in ((ax, cols.get('R_col', 'Rgrat'), '-'), (other, cols.get('Aeff_col', 'Aeffgrat'), ':')):
                got = lines(a)
                want = own_lines(t, par, waves, col)
                ctx.same(len(got), len(want), 'one line per wavelength')
                for (x, y, ln), (w, wx, wy) in zip(got, want):
                    ctx.close(x, wx, 'x values', rtol=1e-12)
                    ctx.close(y, wy, 'y values', rtol=1e-12)
                    ctx.same(ln.get_linestyle(), st, 'line style')
                    num = float(re.match(r'[\d.]+', ln.get_label().strip()).group())
                    ctx.check(abs(num - w) <= (.051 if st == '-' else .51), f'label {ln.get_label()} for {w}')
                ctx.same(rgba(a.get_facecolor()), rgba(color or 'w'), 'background')
            ctx.check('Resolving' in ax.get_ylabel() and 'A_{eff}' in other.get_ylabel(), f'labels {ax.get_ylabel()} {other.get_ylabel()}')
            if par[0] == 'd':
                ctx.check('mm' in ax.get_xlabel() and ax.get_title().lower().startswith('shift') and ax.get_title().endswith(par[1]), 'title')
            else:
                ctx.check('degree' in ax.get_xlabel() and ax.get_title().lower().startswith('rotation') and ax.get_title().endswith(par[1]), 'title')


def oneaxis(ctx, par):
    """plotters without a second label need only one set of axes; the parameter may have any name"""
    from marxs.design.tolerancing import WigglePlotter
    seen = []

    class Mine(WigglePlotter):
        ylabel = 'my label'
        y2label = None

        def plot_one_line(self, ax, axt, key, g, x, factor=1):
            seen.append((key['wave'], np.array(x), np.array(g['Rgrat'])))
            ax.plot(x, g['Rgrat'] * factor)

    for waves, factor in itertools.product([[5.], [3., 9., 1.]], [1, -2.]):
        seen.clear()
        t = tab(waves, 'mixed', False)
        pars = PARS
        if par == 'sigma':
            t.rename_column('dx', 'sigma')
            pars = ['sigma'] + PARS[1:]
        fig, ax, _ = axes('none')
        n0 = len(fig.axes)
        kw = {} if factor == 1 else {'factor': factor}
        Mine().plot_wiggle(t, par, pars, ax, **kw)
        ctx.step()
        ctx.state('one', par, len(waves), factor)
        ctx.same(len(fig.axes), n0, 'axes')
        ctx.same(ax.get_ylabel(), 'my label', 'label')
        if par == 'sigma':
            ctx.same(ax.get_xlabel(), 'sigma', 'label of other parameters')
            t.rename_column('sigma', 'dx')
        want = own_lines(t, 'dx' if par == 'sigma' else par, waves, 'Rgrat')
        ctx.same(len(seen), len(want), 'lines')
        for (w, x, y), (v, wx, wy), (gx, gy, _) in zip(seen, want, lines(ax)):
            ctx.same(w, v, 'wavelength')
            ctx.close(x, wx, 'x')
            ctx.close(y, wy, 'y')
            ctx.close(gy, wy * factor, 'arguments are passed on')
    ctx.raises(NotImplementedError, lambda: WigglePlotter().plot_wiggle(t, 'dx', PARS, axes('none')[1]), 'base class does not know how to plot')


def loadplot(ctx, fname, color):
    from marxs.design.tolerancing import DispersedWigglePlotter
    import matplotlib.pyplot as plt
    waves = [12.5, 30.]
    t = tab(waves, 'mixed', False)
    f = os.path.join(zoo.tmpdir(), fname)
    t.write(f, overwrite=True, **({'format': 'ascii.ecsv'} if fname.endswith('ecsv') else {}))
    kw = {} if color is None else {'axes_facecolor': color}
    for pars in (PARS, PARS[::-1]):
        P = DispersedWigglePlotter()
        bg = dict(P.bg_colors)
        got, fig = P.load_and_plot(f, pars, **kw) if pars is not PARS else P.load_and_plot(f, **kw)
        ctx.step()
        ctx.state(fname, color, pars[0])
        ctx.same(DispersedWigglePlotter.bg_colors, bg, 'default colors')
        for c in t.colnames:
            ctx.same(np.array(got[c]), np.array(t[c]), f'returned table {c}')
        main, twin = [a for a in fig.axes if a.get_title()], [a for a in fig.axes if not a.get_title()]
        ctx.same(len(main), 6, 'plots')
        ctx.same(len(twin), 6, 'twin axes')
        want = color if color is not None else '0.9' if 'global' in fname else (1., .9, .9) if 'individual' in fname else 'w'
        for a, b, p in zip(main, twin, pars):
            ctx.check(a.get_title().endswith(p[1]), f'plot of {p}')
            ctx.same(rgba(a.get_facecolor()), rgba(want), 'background')
            for x, col in ((a, 'Rgrat'), (b, 'Aeffgrat')):
                for (gx, gy, _), (w, wx, wy) in zip(lines(x), own_lines(t, p, waves, col)):
                    ctx.close(gx, wx, 'x')
                    ctx.close(gy, wy, 'y')
        plt.close(fig)
    os.remove(f)


def colors(ctx, cmap, n):
    from marxs.analysis.plots import OrderColor
    import matplotlib.pyplot as plt
    for m in (n, -n):
        oc = OrderColor(cmap, m) if cmap else OrderColor(max_order=m)
        c = plt.get_cmap(cmap or 'nipy_spectral')(np.linspace(0, 1, abs(m + 1)))
        top = len(c) - 1
        seen = {}
        for o in range(-top, top + 1):
            k = oc(o)
            ctx.step()
            ctx.state(cmap, m, o)
            ctx.same(k['linestyle'], ':' if o > 0 else '-', f'order {o} line style')
            if o == 0:
                ctx.check(rgba(k['color']) == rgba('k') and k['lw'] == 4 and k['alpha'] == .7, 'order 0')
            else:
                ctx.close(k['color'], c[abs(o)], f'order {o} color')
                ctx.check(k['lw'] == 2 and 'alpha' not in k, 'width')
                ctx.same(tuple(k['color']), tuple(oc(-o)['color']), 'both signs have the same color')
            ctx.same({a: tuple(np.atleast_1d(b)) for a, b in oc(o).items()}, {a: tuple(np.atleast_1d(b)) for a, b in k.items()}, 'repeated call')


def lsf(ctx, kind):
    from marxs.reduction.lsfparm import plot_LSFfit
    from sherpa.data import Data1DInt
    from sherpa.models.basic import Gauss1D, NormGauss1D
    from matplotlib.figure import Figure
    for n, off in itertools.product([10, 31], [0., 2.]):
        e = np.linspace(20., 20.6, n + 1)
        y = np.round(100 * np.exp(-.5 * ((e[:-1] + e[1:]) / 2 - 20.3)**2 / .01) + off)
        d = Data1DInt('h', e[:-1], e[1:], y)
        g1, g2, l1 = Gauss1D('a'), Gauss1D('b'), NormGauss1D('c')
        for k, g in enumerate((g1, g2)):
            g.pos, g.fwhm, g.ampl = 20.3 + .01 * k, .1 + .2 * k, 50 / (1 + k)
        l1.pos, l1.fwhm, l1.ampl = 20.31, .05, 3.
        model, parts = {'one': (g1, [g1]), 'two': (g1 + g2, [g1, g2]), 'three': (g1 + g2 + l1, [g1, g2, l1]),
                        'nested': (g1 + (g2 + l1), [g1, g2, l1])}[kind]
        fig = Figure()
        ax = [fig.add_subplot(1, 2, i + 1) for i in range(2)]
        plot_LSFfit(d, model, ax)
        ctx.step()
        ctx.state(kind, n, off)
        mid = (e[:-1] + e[1:]) / 2
        for a in ax:
            got = {ln.get_label(): ln for ln in a.get_lines()}
            ctx.same(sorted(got), sorted(['Data', 'model'] + [p.name for p in parts]), 'lines')
            for name, want in [('Data', y), ('model', model(e[:-1], e[1:]))] + [(p.name, p(e[:-1], e[1:])) for p in parts]:
                ctx.close(np.asarray(got[name].get_xdata()), mid, f'{name} x', rtol=1e-12)
                ctx.close(np.asarray(got[name].get_ydata()), want, f'{name} y', rtol=1e-12)
            ctx.check('Ang' in a.get_xlabel(), 'label')
        ctx.check(ax[0].get_yscale() == 'linear' and ax[1].get_yscale() == 'log', 'scales')
        ctx.close(ax[1].get_ylim(), [1, y.max()], 'range of the log plot')


# ------------------------------------------------------------------ HTML of 3D scenes
def scene(n, views):
    from marxs.visualization import x3d as X
    from x3d import x3d
    from marxs.optics import FlatDetector, PerfectLens, CircularDetector
    s = X.Scene(children=[])
    for k in range(n):
        e = [FlatDetector(position=[k, 0, 0], zoom=[1, 2 + k, 3]), PerfectLens(focallength=9., position=[0, k, 1]),
             CircularDetector(position=[0, 0, k])][k % 3]
        X.plot_object(e, scene=s)
    for v in views:
        s.children.append(x3d.Viewpoint(description=v))
    return s


VIEWS = [(), ('front',), ('front', 'from above', 'left')]


def html(ctx, impl, n):
    for views, px in itertools.product(VIEWS, [None, (300, 200)]):
        s = scene(n, views)
        if impl:
            s.set_X3D_implementation(impl)
        if px:
            s.dimension_px = px
        text = s._repr_html_()
        ctx.step()
        ctx.state(impl, n, len(views), px)
        xml = ET.fromstring(s.XML())
        for tag in {e.tag for e in xml.iter()}:
            ctx.same(len(re.findall(rf'<{tag}[\s>/]', text)), len(list(xml.iter(tag))), f'{tag} elements')
        for e in xml.iter('Coordinate'):
            ctx.check(e.get('point') in text, 'coordinates are in the page')
        w, h = px or (600, 400)
        m = re.search(r"<x3d width='(\d+)px' height='(\d+)px'>", text) or re.search(r'width: (\d+)px;\s*height: (\d+)px;', text)
        ctx.same((int(m.group(1)), int(m.group(2))), (w, h), 'size')
        ctx.check(s.js_source in re.findall(r"src=['\"](.*?)['\"]", text), 'script')
        if impl != 'X_ITE':
            ctx.check(s.css_source in re.findall(r"href=['\"](.*?)['\"]", text), 'style sheet')
            b = re.findall(r'<button .*?>(.*?)</button>', text)
            ctx.same(b, list(views), 'a button for each view')
            for v in views:
                ctx.check(f"description=\\'{v}\\'" in text, f'button for {v}')
        ctx.same(text, s._repr_html_(), 'repeated')
    s = scene(1, ())
    a = (s.js_source, s.css_source, s.x3d_implementation)
    ctx.raises(ValueError, lambda: s.set_X3D_implementation('OTHER'), 'unknown viewer')
    ctx.same((s.js_source, s.css_source, s.x3d_implementation), a, 'viewer after an error')
    s.set_X3D_implementation('X_ITE')
    s.set_X3D_implementation('X3DOM')
    ctx.same((s.js_source, s.css_source, s.x3d_implementation), a, 'there and back')


def archive(ctx, impl, fmt):
    """write_html_archive with downloads replaced by local stand-ins, and with failures at every step"""
    import urllib.request
    from marxs.visualization import x3d as X
    real, realmake = urllib.request.urlretrieve, X.make_archive
    for views, fail in itertools.product(VIEWS[:2], ['no', 'download', 'html']):
        s = scene(2, views)
        s.set_X3D_implementation(impl)
        before = (s.js_source, s.css_source)
        want = s._repr_html_()
        urls, dirs = [], []

        def fetch(url, path, *a, **k):
            urls.append(url)
            dirs.append(os.path.dirname(path))
            if fail == 'download':
                raise OSError('no network')
            with open(path, 'w') as f:
                f.write('content of ' + url)

        if fail == 'html':
            def bad():
                raise RuntimeError('cannot make page')
            s._repr_html_ = bad
        base = os.path.join(zoo.tmpdir(), f'arch{os.getpid()}')
        urllib.request.urlretrieve = fetch
        X.urllib.request.urlretrieve = fetch
        try:
            if fail == 'no':
                s.write_html_archive(base, fmt)
            else:
                ctx.raises((OSError, RuntimeError), lambda: s.write_html_archive(base, fmt), fail)
        finally:
            urllib.request.urlretrieve = real
        ctx.step()
        ctx.state(impl, fmt, len(views), fail)
        ctx.same((s.js_source, s.css_source), before, 'sources are restored')
        ctx.check(not any(os.path.exists(d) for d in dirs), 'temporary files are removed')
        path = base + {'zip': '.zip', 'tar': '.tar', 'gztar': '.tar.gz'}[fmt]
        if fail != 'no':
            ctx.check(not os.path.exists(path), 'no archive after a failure')
            continue
        if fmt == 'zip':
            with zipfile.ZipFile(path) as z:
                files = {n: z.read(n).decode() for n in z.namelist() if not n.endswith('/')}
        else:
            with tarfile.open(path) as z:
                files = {m.name: z.extractfile(m).read().decode() for m in z.getmembers() if m.isfile()}
        files = {os.path.normpath(k): v for k, v in files.items()}
        os.remove(path)
        src = [b for b in before if b]
        ctx.same(sorted(urls), sorted(src), 'what is downloaded')
        ctx.same(sorted(files), sorted(['figure.html'] + [os.path.basename(b) for b in src]), 'files in the archive')
        for b in src:
            ctx.same(files[os.path.basename(b)], 'content of ' + b, 'file content')
            want = want.replace(b, os.path.basename(b))
        ctx.same(files['figure.html'], want, 'page refers to local files')


def scenarios(ctx):
    yield from C.cases(wiggle, 'wiggle', PARS, AXT, ['as is', 'reversed', 'mixed'])
    yield from C.cases(oneaxis, 'oneaxis', PARS + ['sigma'])
    yield from C.cases(loadplot, 'loadplot', ['a_global.fits', 'individual_b.fits', 'other.fits', 'global.ecsv'], [None, 'y', (.1, .2, .3)])
    yield from C.cases(colors, 'colors', [None, 'viridis'], [1, 2, 8, 15] + ([40] if ctx.tier == 'thorough' else []))
    yield from C.cases(lsf, 'lsf', ['one', 'two', 'three', 'nested'])
    yield from C.cases(html, 'html', [None, 'X3DOM', 'X_ITE'], [0, 1, 3] + ([7] if ctx.tier == 'thorough' else []))
    yield from C.cases(archive, 'archive', ['X3DOM', 'X_ITE'], ['zip', 'tar', 'gztar'])
