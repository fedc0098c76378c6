"""Deformation fields move every strip as the nearest field entry says, every time, on its own side only."""
import copy
import os
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, mesh, ref
from vk.checks import c09
from vk.core import Sub, Skip, require, close

UIDS = ['wing_main', 'a_m_b', '_x', 'main_mid', 'w_m2', 'tail', 'Wing1']


@st.composite
def field(draw, wing, mirror):
    """Rows [x y z ux uy uz rx ry rz] near the wing (or its mirror image)"""
    pts = [p for s in wing['segments'] for p in s['vertices'].values()]
    n = draw(st.integers(1, 5))
    rows = []
    for k in range(n):
        p = np.array(draw(st.sampled_from(pts)), float) + [draw(gen.num(-1, 1, 0.01)) for _ in range(3)]
        # break ties between equally near entries
        p = p + np.array([0.00713, 0.00371, 0.00197])*(k + 1)
        if mirror:
            p = p*mesh.FLIP[wing['symmetry']]
        u = [draw(gen.tame(-0.5, 0.5, 0.01, (0.0,))) for _ in range(3)]
        r = [draw(gen.tame(-0.3, 0.3, 0.01, (0.0,))) for _ in range(3)] if draw(st.booleans()) else [0.0]*3
        rows.append([round(float(x), 6) for x in p] + [float(x) for x in u] + [float(x) for x in r])
    if draw(st.booleans()):
        # rigid translation
        for row in rows:
            row[3:6] = rows[0][3:6]
            row[6:9] = [0.0]*3
    return rows


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(controls=2, max_c=3, max_s=4, max_segs=2, symmetries=(2, 0, 1, 3)))
    names = draw(st.permutations(UIDS))
    if draw(st.booleans()):
        for w in ac['wings']:
            for s in w['segments']:
                s['airfoils'] = dict(inner='NACA0012', outer='NACA0012')
    f = {}
    for w, nm in zip(ac['wings'], [n for n in names if not n.startswith('_')]):
        old = w['uid']
        w['uid'] = nm
        if draw(st.integers(0, 3)):
            f[nm] = draw(field(w, False))
        if w['symmetry'] and draw(st.integers(0, 3)):
            f[nm + '_m'] = draw(field(w, True))
    if draw(st.booleans()):
        f['_structure'] = [[0.0]*3 + [5.0]*3 + [1.0]*3]
    # the fields may be listed in any order
    f = {k: f[k] for k in draw(st.permutations(list(f)))}
    return dict(aircraft=ac, field=f, aero=draw(gen.aero(rates=False)), twice=draw(st.booleans()))


def deform(p, rows):
    """Displaced position of a point: displacement of the nearest entry plus its rotations acting on the lever arm"""
    if rows is None:
        return p
    rows = np.asarray(rows, float)
    d = np.linalg.norm(rows[:, :3] - p, axis=1)
    k = np.argsort(d)
    if len(d) > 1 and d[k[1]] - d[k[0]] < 1e-7:
        raise Skip('two field entries equally near')
    e = rows[k[0]]
    r = p - e[:3]
    out = p + e[3:6]
    for ax in range(3):
        out = out + ref.rot(np.eye(3)[ax], e[6 + ax]) @ r - r
    return out


def deformation(case, ctx):
    ac, f = case['aircraft'], case['field']
    r0 = sim.run_case(ctx, ac, case['aero'], upto='lattice')
    d = sim.fresh_dir(ctx, 'q')
    fn = sim.write_project(d, ac, case['aero'], deformation=f)
    s, acobj, state = sim.load_project(fn)
    cur, lat, _ = sim.first(sim.stages(s, acobj, state, upto='lattice'))
    lats = [lat]
    if case['twice']:
        # the next flight state of a batch regenerates the lattice from the same aircraft
        import pytornado.aero.vlm as vlm
        lats.append(vlm.gen_lattice(acobj, cur, s, make_new_subareas=False))
    ns = [np.array(l.n) for l in lats]
    parts = mesh.parts(ac, r0.lat)
    moved = 0
    for nth, lat in enumerate(lats):
        require(lat.p.shape == r0.lat.p.shape, 'deformation changed the number of panels')
        for (wu, su, m), part in parts.items():
            w = part.wing
            sym = w['symmetry']
            rows = f.get(wu + '_m' if m else wu)
            flip = mesh.FLIP[sym] if m else np.ones(3)
            q = mesh.seg_corners(part.seg)
            order = [i for rr in part.idx for i in rr]
            for e0, e1, quads, names, where in mesh.check_tiling(part, r0.lat):
                cor = {}
                for e in (e0, e1):
                    for x in (0.0, 1.0):
                        cor[(e, x)] = deform(mesh.bilinear(q, e, x)*flip, rows)
                for quad, pos in zip(quads, where):
                    i = order[pos]
                    want = []
                    for k, e in enumerate((e0, e1, e1, e0)):
                        x = quad[k, 1]
                        want.append(cor[(e, 0.0)] + x*(cor[(e, 1.0)] - cor[(e, 0.0)]))
                    want = np.array(want)
                    if m and sym == 2:
                        want = want[[1, 0, 3, 2]]
                    elif m and sym == 3:
                        want = want[[3, 2, 1, 0]]
                    close(lat.p[i], want, f'{mesh.where(part)}: corners of deformed panel {i}'
                          + (' (second evaluation)' if nth else ''), rtol=0, atol=3e-6)
                    if rows is not None:
                        moved += 1
        # everything else follows from the deformed corners
        p = lat.p
        close(lat.v[:, 1], 0.75*p[:, 0] + 0.25*p[:, 3], 'bound vortex start', atol=1e-9, rtol=1e-12)
        close(lat.v[:, 2], 0.75*p[:, 1] + 0.25*p[:, 2], 'bound vortex end', atol=1e-9, rtol=1e-12)
        close(lat.c, 0.125*(p[:, 0] + p[:, 1]) + 0.375*(p[:, 2] + p[:, 3]), 'control point', atol=1e-9, rtol=1e-12)
    # devices turn about the deformed hinge line
    defl, _ = c09.axes_and_angles(ac, r0.lat, lambda wu, m, p: deform(p, f.get(wu + '_m' if m else wu)))
    plain = all(c == 'NACA0012' for w in ac['wings'] for s in w['segments'] for c in s['airfoils'].values())
    if plain and any(e is not None and e[1] for e in defl):
        s.settings['_do_normal_rotations'] = False
        import pytornado.aero.vlm as vlm
        n0 = np.array(vlm.gen_lattice(acobj, cur, s, make_new_subareas=False).n)
        for i, e in enumerate(defl):
            want, tol = n0[i], 1e-6
            if e is not None and e[1]:
                want, tol = ref.rot(e[0], np.radians(e[1])) @ n0[i], e[2]
            for nth, lat in enumerate(ns):
                close(lat[i], want, f'normal of panel {i} of the deformed wing (deflection {None if e is None else e[1]})', atol=tol)
        ctx.label('deflected device on a deformed wing')
    gen.describe(ac, ctx)
    if any(k.endswith('_m') for k in f):
        ctx.label('mirrored side deformed')
    ctx.nontrivial(moved > 0)


@st.composite
def rigid_cases(draw):
    ac = draw(gen.aircraft(controls=2, max_c=3, max_s=3, max_segs=2, symmetries=(0, 2)))
    t = [draw(gen.num(-2, 2, 0.1)) for _ in range(3)]
    return dict(aircraft=ac, t=t, aero=draw(gen.aero()))


def rigid(case, ctx):
    """A field that moves everything by the same vector gives the loads of the translated aircraft"""
    from vk import trans
    ac, t = case['aircraft'], np.array(case['t'])
    f = {}
    for w in ac['wings']:
        f[w['uid']] = [[0.1*k, 0.3*k, 0, *case['t'], 0, 0, 0] for k in range(3)]
        if w['symmetry']:
            f[w['uid'] + '_m'] = [[0.1*k, -0.3*k, 0, *case['t'], 0, 0, 0] for k in range(3)]
    ac2 = copy.deepcopy(ac)
    for k in ('gcenter', 'rcenter'):
        ac2['refs'][k] = [float(a + b) for a, b in zip(ac['refs'][k], t)]
    r = sim.run_case(ctx, ac, case['aero'])
    tol, F0, M0, cond = trans.tolerances(r)
    if not cond < 1e6:
        raise Skip('ill-conditioned system')
    r2 = sim.run_case(ctx, ac2, case['aero'], deformation=f)
    tol = tol + 1e-6
    j = trans.pair(r, r2, 'translated aircraft', lambda p: p + t)
    if j is None and trans.undecided(ac, r.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    require(j is not None, 'the mesh of the translated aircraft is not the translated mesh')
    e = trans.effect(r, trans.normals_apart(r, r2, j), r2, j)
    if e['big']:
        raise Skip('too sensitive')
    F, M, W = trans.loads(r.data)
    F2, M2, W2 = trans.loads(r2.data)
    close(F2, F, 'total force', rtol=0, atol=tol*F0 + e['F'])
    close(M2, M, 'total moment', rtol=0, atol=tol*M0 + e['M'])
    ctx.nontrivial(bool(np.any(t)) and F0 > 1e-6)


@st.composite
def odd_cases(draw):
    ac = draw(gen.aircraft(controls=0, max_c=2, max_s=2, max_segs=1, symmetries=(2, 0)))
    kind = draw(st.sampled_from(['missing', 'empty', 'unknown', 'ignored']))
    return dict(aircraft=ac, kind=kind)


def odd(case, ctx):
    """Missing or mismatching deformation files are refused, empty ones and fields of other models change nothing"""
    ac, kind = case['aircraft'], case['kind']
    ctx.label(kind)
    r0 = sim.run_case(ctx, ac, upto='lattice')
    d = sim.fresh_dir(ctx, 'q')
    row = [[0.0, 0, 0, 0.5, 0.5, 0.5, 0, 0, 0]]
    f = {'missing': {}, 'empty': {}, 'unknown': {'no_such_wing': row}, 'ignored': {'_' + ac['wings'][0]['uid']: row}}[kind]
    fn = sim.write_project(d, ac, deformation=f)
    if kind == 'missing':
        os.remove(os.path.join(d, 'deformation', 'def.json'))
    try:
        s, acobj, state = sim.load_project(fn)
    except Exception:
        require(kind in ('missing', 'unknown'), f'deformation file ({kind}) was refused')
        return
    require(kind in ('empty', 'ignored'), f'deformation file ({kind}) was accepted')
    cur, lat, _ = sim.first(sim.stages(s, acobj, state, upto='lattice'))
    close(lat.p, r0.lat.p, 'panels', rtol=1e-14)


SUBS = [
    Sub('deformation', cases(), deformation, 900, 20000, 'at least one panel moved by a field'),
    Sub('rigid', rigid_cases(), rigid, 300, 6000, 'non-zero translation and non-zero loads'),
    Sub('odd', odd_cases(), odd, 200, 2000, 'every case'),
]
