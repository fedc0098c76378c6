"""Plots: written exactly when requested, showing what is there, and without any effect on the results."""
import copy
import os
import re
import numpy as np
from scipy.spatial import cKDTree
from hypothesis import strategies as st

from vk import gen, sim, mesh, trans
from vk.checks import c19
from vk.checks.c18 import tree
from vk.core import Sub, Skip, require, close

KEYS = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')
PLOTS = ('geometry', 'lattice', 'results', 'matrix_downwash')
AX2 = {'Y-Z plane': (1, 2), 'X-Z plane': (0, 2), 'X-Y plane': (0, 1)}


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(max_wings=2, controls=2, max_c=2, max_s=2, max_segs=2))
    if draw(st.integers(0, 3)) == 0:
        # drawn on the left hand side
        ac['wings'] = [trans.other_half(w) if w['symmetry'] == 2 else w for w in ac['wings']]
    n = draw(st.sampled_from([1, 1, 1, 2]))
    a = [draw(gen.aero()) for _ in range(n)]
    aero = {k: [x[k] for x in a] for k in a[0]} if n > 1 else a[0]
    plot = {}
    for k in PLOTS:
        how = draw(st.sampled_from([(False, False), (True, False), (True, False), (False, True), (True, True)]))
        opt = []
        if k == 'results':
            opt = draw(st.lists(st.sampled_from(KEYS), max_size=draw(st.sampled_from([2, 2, 2, 2, 6])), unique=True))
        plot[k] = dict(opt=opt, save=how[0], show=how[1])
    case = dict(aircraft=ac, aero=aero, plot=plot, name=draw(st.sampled_from(['run', 'x y', 'a.b'])))
    if draw(st.integers(0, 3)) == 0:
        w = ac['wings'][0]
        case['deformation'] = {w['uid']: draw(c19.field(w, False))}
        if draw(st.booleans()):
            plot['lattice']['opt'] = ['deformation']
    return case


def extent(ac):
    """All corners of the aircraft, with their mirror images"""
    pts = []
    for w in ac['wings']:
        p = np.array([v for s in w['segments'] for v in s['vertices'].values()], dtype=float)
        pts.append(p)
        if w['symmetry']:
            q = p.copy()
            q[:, {1: 2, 2: 1, 3: 0}[w['symmetry']]] *= -1
            pts.append(q)
    return np.vstack(pts)


# ----- recording what is drawn -----

class Recorder:
    """Stands in for Figure.savefig (small files) and pyplot.show (no window)"""

    def __init__(self):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.F, self.plt = matplotlib.figure.Figure, plt
        self.saved, self.shown = [], []

    def __enter__(self):
        self.old = self.F.savefig, self.plt.show
        rec = self

        def savefig(fig, fname, *args, **kw):
            rec.saved.append((str(fname), content(fig)))
            kw['dpi'] = 8
            return rec.old[0](fig, fname, *args, **kw)

        def show(*args, **kw):
            rec.shown.append(len(rec.plt.get_fignums()))
        self.F.savefig, self.plt.show = savefig, show
        return self

    def __exit__(self, *exc):
        self.F.savefig, self.plt.show = self.old
        self.plt.close('all')


def content(fig):
    out = []
    for ax in fig.axes:
        d = dict(title=ax.get_title(), ylabel=ax.get_ylabel(), colorbar=ax.get_label() == '<colorbar>', dim=3 if hasattr(ax, 'get_zlim') else 2, lines=[], fills=[], polys=[], points=[], arrows=[],
                 texts=[t.get_text() for t in ax.texts], images=[np.array(im.get_array()) for im in ax.images],
                 lims=[getattr(ax, f'get_{k}lim')() for k in ('xyz' if hasattr(ax, 'get_zlim') else 'xy')])
        for ln in ax.lines:
            xyz = ln.get_data_3d() if d['dim'] == 3 else ln.get_data()
            d['lines'].append((np.array(xyz, float).T, ln.get_color()))
        for p in ax.patches:
            d['fills'].append((p.get_path().vertices.copy(), tuple(p.get_facecolor())))
        for c in ax.collections:
            if d['dim'] == 3 and hasattr(c, '_vec'):
                d['polys'].append(np.array(c._vec[:3]).T)
            elif d['dim'] == 3 and hasattr(c, '_offsets3d'):
                d['points'].append(np.array([np.ma.getdata(v) for v in c._offsets3d], float).T)
            elif d['dim'] == 3 and hasattr(c, '_segments3d'):
                d['arrows'].append([np.array(v, float) for v in c._segments3d])
            elif d['dim'] == 2 and len(c.get_offsets()):
                d['points'].append(np.array(c.get_offsets()))
        out.append(d)
    return out


def same_points(drawn, want, what, tol=1e-9):
    """The two point sets cover each other"""
    drawn, want = np.asarray(drawn, float).reshape(-1, len(want[0])), np.asarray(want, float)
    require(len(drawn) > 0, f'{what}: nothing is drawn')
    scale = tol*(1 + np.abs(want).max())
    d = np.abs(drawn[:, None, :] - want[None, :, :]).max(axis=2)
    if d.min(axis=0).max() > scale:
        k = int(d.min(axis=0).argmax())
        require(False, f'{what}: the point {want[k].tolist()} is not drawn')
    if d.min(axis=1).max() > scale:
        k = int(d.min(axis=1).argmax())
        require(False, f'{what}: a line goes through {drawn[k].tolist()}, where there is nothing')


def geometry_points(ac):
    """vertices of all segments; corners and hinge points of all controls; with their mirror images"""
    seg, con = [], []
    for w in ac['wings']:
        add = lambda dst, pts: dst.extend(list(pts) + ([p*mesh.FLIP[w['symmetry']] for p in pts] if w['symmetry'] else []))
        q = {s['uid']: mesh.seg_corners(s) for s in w['segments']}
        for s in w['segments']:
            add(seg, q[s['uid']])
        for c in w.get('controls', []):
            r, h = c['rel_vertices'], c['rel_hinge_vertices']
            far = 1.0 if c['device_type'] == 'flap' else 0.0
            at = lambda side, x: mesh.bilinear(q[c['segment_uid'][side]], np.array(r['eta_' + side]), np.array(x))
            add(con, [at(sd, x) for sd in ('inner', 'outer') for x in (r['xsi_' + sd], far, h['xsi_' + sd])])
    return seg, con


def check_lines(axes, want, what):
    """3D axes: all points; 2D axes: their projections"""
    for ax in axes:
        pts = np.concatenate([l for l, _ in ax['lines']]) if ax['lines'] else np.zeros((0, ax['dim']))
        if ax['dim'] == 3:
            same_points(pts, want, f'{what}, 3D view')
        elif ax['title'] in AX2:
            same_points(pts, [p[list(AX2[ax['title']])] for p in want], f"{what}, {ax['title']}")


def check_view(axes, ac, what):
    """The whole aircraft is in sight, at the same scale in all directions"""
    pts = extent(ac)
    for ax in axes:
        k = [0, 1, 2] if ax['dim'] == 3 else list(AX2[ax['title']]) if ax['title'] in AX2 else None
        if k is None:
            continue
        name = ax['title'] or '3D view'
        for j, (lo, hi) in zip(k, ax['lims']):
            require(min(lo, hi) <= pts[:, j].min() and max(lo, hi) >= pts[:, j].max(),
                    f"{what}, {name}: shows {'xyz'[j]} from {lo} to {hi}, the aircraft extends from {pts[:, j].min()} to {pts[:, j].max()}")
        size = [abs(hi - lo) for lo, hi in ax['lims']]
        require(max(size) - min(size) <= 1e-6*max(size), f'{what}, {name}: different scales {size}')


def check_marker(axes, point, what):
    """The point is marked in all views"""
    for ax in axes:
        if ax['dim'] == 3:
            p, name = np.asarray(point, float), '3D view'
        elif ax['title'] in AX2:
            p, name = np.asarray(point, float)[list(AX2[ax['title']])], ax['title']
        else:
            continue
        drawn = [q for m in ax['points'] for q in m] + [l[0] for l, _ in ax['lines'] if len(l) == 1]
        require(any(np.abs(np.asarray(q) - p).max() < 1e-9*(1 + np.abs(p).max()) for q in drawn),
                f'{what}, {name}: the centre of gravity {p.tolist()} is not marked')


def check_stream(axes, state, what):
    """3D results: the free stream vector"""
    a, b = np.deg2rad(state.aero['alpha']), np.deg2rad(state.aero['beta'])
    u = np.array([np.cos(a)*np.cos(b), -np.sin(b), np.sin(a)*np.cos(b)])
    for ax in axes:
        for text in ax['texts']:
            m = re.fullmatch(r'\s*([-+.\deE]+) m/s\s*', text)
            if m:
                require(abs(float(m.group(1)) - state.aero['airspeed']) < 0.051, f'{what}: airspeed {text!r}, analysed {state.aero["airspeed"]}')
        for arrow in ax['arrows']:
            length = [np.linalg.norm(s[-1] - s[0]) for s in arrow]
            if length and max(length) > 0 and np.isfinite(max(length)):
                k = int(np.argmax(length))
                s = arrow[k]
                head = [q for j, t in enumerate(arrow) if j != k for q in t]
                if not head:
                    continue
                # the head is at the end of the arrow
                first, last = sorted((s[0], s[-1]), key=lambda q: -np.linalg.norm(q - np.mean(head, axis=0)))
                d = (last - first)/max(length)
                require(np.abs(d - u).max() < 1e-6, f'{what}: the free stream is drawn along {d.tolist()}, it is {u.tolist()}')


def check_results(axes, lat, values, what):
    import matplotlib
    cmap = matplotlib.cm.get_cmap('Spectral')
    v = np.asarray(values, float)
    rng = v.max() - v.min()
    x = (v - v.min())/rng if rng != 0 else np.zeros(len(v))
    want = [cmap(t) for t in x]
    for ax in axes:
        items = ax['fills'] if ax['title'] in AX2 else None
        if items is None:
            continue
        k = list(AX2[ax['title']])
        require(items, f"{what}, {ax['title']}: nothing is drawn")
        pts = np.concatenate([v for v, _ in items])
        cols = np.concatenate([np.tile(c, (len(v), 1)) for v, c in items])
        kd = cKDTree(pts)
        for i, p in enumerate(lat.p):
            for q in p[:, k]:
                near = kd.query_ball_point(q, 1e-9*(1 + np.abs(pts).max()))
                require(near, f"{what}, {ax['title']}: panel {i} is not drawn")
                require((np.abs(cols[near] - np.array(want[i])).max(axis=1) < 1e-5).any(),
                        f"{what}, {ax['title']}: panel {i} (value {v[i]}) is not drawn in its colour")


def check_scale(axes, key, values, what):
    """The colour bar spans the values of the plotted quantity"""
    v = np.asarray(values, float)
    for ax in axes:
        if ax['colorbar'] and ax['ylabel'] == key and np.ptp(v) > 1e-9*np.abs(v).max():
            lo, hi = ax['lims'][1]
            tol = 1e-6*np.abs(v).max()
            require(abs(lo - v.min()) <= tol and abs(hi - v.max()) <= tol,
                    f'{what}: the colour bar goes from {lo} to {hi}, the values from {v.min()} to {v.max()}')


def plots(case, ctx):
    ac, aero, plot, name = case['aircraft'], case['aero'], case['plot'], case['name']
    deformation = case.get('deformation')
    save = {'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': True}
    d0 = sim.fresh_dir(ctx, 'noplot')
    f0 = sim.write_project(d0, ac, aero, sim.make_settings(save_results=save), deformation, name=name)
    with Recorder() as rec:
        r0 = sim.standard_run(f0)
    require(not rec.saved and not rec.shown and not tree(os.path.join(d0, '_plots')), 'plots although none was requested')
    d1 = sim.fresh_dir(ctx, 'plot')
    settings = sim.make_settings(save_results=save)
    settings['plot'] = copy.deepcopy(plot)
    f1 = sim.write_project(d1, ac, aero, settings, deformation, name=name)
    n = len(aero['alpha']) if isinstance(aero['alpha'], list) else 1
    with Recorder() as rec:
        r1 = sim.standard_run(f1)

    # results
    for k in r0['vlmdata'].panelwise:
        require(np.array_equal(r0['vlmdata'].panelwise[k], r1['vlmdata'].panelwise[k], equal_nan=True), f'{k} changes when plots are requested')
    for k in ('p', 'v', 'c', 'n', 'a', 'bound_leg_midpoints'):
        if hasattr(r0['lattice'], k):
            require(np.array_equal(getattr(r0['lattice'], k), getattr(r1['lattice'], k), equal_nan=True),
                    f'the lattice ({k}) changes when plots are requested')
    for k in ('matrix_downwash', 'array_rhs'):
        require(np.array_equal(getattr(r0['vlmdata'], k), getattr(r1['vlmdata'], k), equal_nan=True), f'{k} changes when plots are requested')
    for k in r0['vlmdata'].coeffs:
        a, b = r0['vlmdata'].coeffs[k], r1['vlmdata'].coeffs[k]
        require(a == b or (a != a and b != b), f'coefficient {k} changes when plots are requested')
    t0, t1 = tree(os.path.join(d0, '_results')), tree(os.path.join(d1, '_results'))
    require(t0 == t1, f'result files {sorted(t0 ^ t1)} depend on plots')
    for p in t0:
        with open(os.path.join(d0, '_results', p)) as x, open(os.path.join(d1, '_results', p)) as y:
            require(x.read() == y.read(), f'result file {p} changes when plots are requested')

    # files; without options the pressure coefficients are plotted
    opts = plot['results']['opt'] or ['cp']
    want = []
    for k in PLOTS:
        if not plot[k]['save']:
            continue
        if k == 'matrix_downwash':
            want.append('downwash')
        elif k == 'results':
            want += [f'results_{o}{dim}' for o in opts for dim in ('3D', '2D')]
        else:
            want += [k + dim for dim in ('3D', '2D')]
    got = sorted(tree(os.path.join(d1, '_plots')))
    kinds = {}
    for p in got:
        m = re.fullmatch(r'(.*)_\d{4}-\d\d-\d\d_[\d-]+\.png', os.path.basename(p))
        require(m is not None, f'plot file {p}')
        kinds.setdefault(os.path.dirname(p), []).append(m.group(1))
        require(os.path.getsize(os.path.join(d1, '_plots', p)) > 0, f'{p} is empty')
    exp = {f'{name}_{i:03d}': sorted(want) for i in range(n) if want}
    require({k: sorted(v) for k, v in kinds.items()} == exp, f'plot files {kinds}, requested {exp}')
    shows = n*sum(len(opts) if k == 'results' else 1 for k in PLOTS if plot[k]['show'])
    require(len(rec.shown) == shows, f'{len(rec.shown)} plots shown, {shows} requested')

    # contents
    seg, con = geometry_points(ac)
    for fname, axes in rec.saved:
        if os.path.basename(fname).startswith(('geometry', 'lattice')):
            check_marker(axes, ac['refs']['gcenter'], os.path.basename(fname)[:10])
        base = os.path.basename(fname)
        if not base.startswith('downwash'):
            check_view(axes, ac, base[:12])
        if base.startswith('geometry'):
            check_lines(axes, seg + con, base[:10])
        elif base.startswith('lattice'):
            pts = list(np.asarray(r1['lattice'].p).reshape(-1, 3))
            if n == 1:
                if deformation is None:
                    pts = pts + con
                elif 'deformation' in plot['lattice']['opt']:
                    pts = pts + [np.array(row[:3]) for rows in deformation.values() for row in rows]
                check_lines(axes, pts, base[:9])
        elif base.startswith('downwash') and n == 1:
            require(len(axes) == 1 and len(axes[0]['images']) == 1 and
                    np.array_equal(axes[0]['images'][0], r1['vlmdata'].matrix_downwash), 'matrix plot: not the influence matrix')
        elif base.startswith('results') and n == 1:
            key = base[len('results_'):].split('2D')[0].split('3D')[0]
            if np.isfinite(r1['vlmdata'].panelwise[key]).all():
                check_scale(axes, key, r1['vlmdata'].panelwise[key], base[:18])
            if '3D' in base:
                check_stream(axes, next(iter(r1['state'].iter_states())), base[:18])
                polys = [p for ax in axes for p in ax['polys']]
                require(len(polys) == len(r1['lattice'].p), f'{base[:18]}: {len(polys)} surfaces for {len(r1["lattice"].p)} panels')
                for i, (p, q) in enumerate(zip(polys, r1['lattice'].p)):
                    d = np.abs(p[:, None, :] - q[None, :, :]).max(axis=2).min(axis=0)
                    require(d.max() < 1e-9*(1 + np.abs(q).max()), f'{base[:18]}: panel {i} is drawn elsewhere')
            if '2D' in base and np.isfinite(r1['vlmdata'].panelwise[key]).all():
                check_results(axes, r1['lattice'], r1['vlmdata'].panelwise[key], base[:18])
        if '3D' in base:
            info = ' '.join(t for ax in axes for t in ax['texts'])
            m = re.search(r'Wings =\s*(-?\d+)\s*Segments =\s*(-?\d+)\s*Controls =\s*(-?\d+)', info)
            if m:
                exp_n = (len(ac['wings']), sum(len(w['segments']) for w in ac['wings']), sum(len(w.get('controls', [])) for w in ac['wings']))
                require(tuple(map(int, m.groups())) == exp_n, f'{base}: {m.group(0)!r}, expected {exp_n}')
            m = re.search(r'Aircraft size =\s*([-+.\deE]+|nan|inf)', info)
            if m:
                # the box around all corners, with or without the origin
                box = extent(ac)
                lo, hi = (np.linalg.norm(np.ptp(b, axis=0)) for b in (box, np.vstack([box, [[0.0, 0.0, 0.0]]])))
                got = float(m.group(1))
                require(lo - 0.006 <= got <= hi + 0.006, f'{base}: {m.group(0)!r}, expected {lo} to {hi}')
    for k in PLOTS:
        if plot[k]['save']:
            ctx.label(k)
    if deformation is not None:
        ctx.label('deformed')
    gen.describe(ac, ctx)
    ctx.nontrivial(bool(want))


SUBS = [Sub('plots', cases(), plots, 160, 3000, 'at least one plot file requested')]
