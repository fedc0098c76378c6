"""A symmetry flag is equivalent to modelling the mirror image explicitly."""
import copy
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, mesh, trans
from vk.core import Sub, require, close, Skip


def zero_deflections(ac):
    ac = copy.deepcopy(ac)
    for w in ac['wings']:
        for c in w.get('controls', []):
            c['deflection'] = 0.0
            if 'deflection_mirror' in c:
                c['deflection_mirror'] = 0.0
    return ac


@st.composite
def image_cases(draw):
    return dict(aircraft=draw(gen.aircraft(symmetries=(2, 1, 3, 0), controls=3, max_c=5, max_s=4)))


def image(case, ctx):
    """In the lattice: the mirrored side is the mirror image of the modelled side, panel by panel"""
    ac = zero_deflections(case['aircraft'])
    lat = sim.run_case(ctx, ac, upto='lattice').lat
    parts = mesh.parts(ac, lat)
    gen.describe(ac, ctx)
    seen = False
    for w in ac['wings']:
        sym = w['symmetry']
        for s in w['segments']:
            if not sym:
                continue
            seen = True
            a, b = parts[(w['uid'], s['uid'], False)], parts[(w['uid'], s['uid'], True)]
            ia = [i for r in a.idx for i in r]
            ib = [i for r in b.idx for i in r]
            require(len(ia) == len(ib), f'{mesh.where(b)}: {len(ib)} panels, modelled side has {len(ia)}')
            pa = np.asarray(lat.p)[ia]
            pb = np.asarray(lat.p)[ib]*mesh.FLIP[sym]
            # pair by panel centre
            ca, cb = pa.mean(axis=1), pb.mean(axis=1)
            d = np.linalg.norm(ca[:, None, :] - cb[None, :, :], axis=2)
            j = d.argmin(axis=1)
            scale = 1 + np.abs(pa).max()
            require(bool((d[np.arange(len(ia)), j] < 1e-9*scale).all()) and len(set(j.tolist())) == len(ia),
                    f'{mesh.where(b)}: panels are not the mirror images of the modelled panels')
            ctla = [c for r, c in zip(a.idx, a.ctl) for _ in r]
            ctlb = [c for r, c in zip(b.idx, b.ctl) for _ in r]
            order = {1: [0, 1, 2, 3], 2: [1, 0, 3, 2], 3: [3, 2, 1, 0]}[sym]
            close(pb[j][:, order], pa, f'{mesh.where(b)}: panel corners', atol=1e-9*scale)
            require([ctlb[k] for k in j] == ctla, f'{mesh.where(b)}: panels belong to other controls than their images')
            close(np.asarray(lat.a)[ib][j], np.asarray(lat.a)[ia], f'{mesh.where(b)}: panel areas', rtol=1e-8, atol=1e-9)
            # normals (planes) mirrored: camber included.  For the X-Z and X-Y planes control points correspond
            if sym in (1, 2):
                na = np.asarray(lat.n)[ia]
                nb = np.asarray(lat.n)[ib][j]*mesh.FLIP[sym]
                if sym == 2:
                    close(nb, na, f'{mesh.where(b)}: mirrored normals', atol=2e-4)
                else:
                    close(-nb, na, f'{mesh.where(b)}: mirrored normals', atol=2e-4)
    ctx.nontrivial(seen)


def explicit(ac):
    """Replace the XZ symmetry flag by an explicitly modelled port wing"""
    out = copy.deepcopy(ac)
    wings = []
    for w in out['wings']:
        if w['symmetry'] != 2:
            wings.append(w)
            continue
        m = copy.deepcopy(w)
        w['symmetry'] = m['symmetry'] = 0
        m['uid'] = w['uid'] + '_port'
        fl = lambda p: [p[0], -p[1], p[2]]
        for s in m['segments']:
            v = s['vertices']
            s['vertices'] = dict(a=fl(v['b']), b=fl(v['a']), c=fl(v['d']), d=fl(v['c']))
            s['airfoils'] = dict(inner=s['airfoils']['outer'], outer=s['airfoils']['inner'])
        m['segments'].reverse()
        for c in m.get('controls', []):
            c['deflection'] = c.pop('deflection_mirror', c['deflection'])
            c['segment_uid'] = dict(inner=c['segment_uid']['outer'], outer=c['segment_uid']['inner'])
            r, h = c['rel_vertices'], c['rel_hinge_vertices']
            c['rel_vertices'] = dict(eta_inner=round(1 - r['eta_outer'], 6), eta_outer=round(1 - r['eta_inner'], 6),
                                     xsi_inner=r['xsi_outer'], xsi_outer=r['xsi_inner'])
            c['rel_hinge_vertices'] = dict(xsi_inner=h['xsi_outer'], xsi_outer=h['xsi_inner'])
        for c in w.get('controls', []):
            c.pop('deflection_mirror', None)
        wings += [w, m]
    out['wings'] = wings
    return out


@st.composite
def explicit_cases(draw):
    ac = draw(gen.aircraft(symmetries=(2,), controls=2, planar=True if draw(st.booleans()) else None))
    # additional spanwise lines may merge differently seen from the other end: leave that to the mesh checks
    for w in ac['wings']:
        if w.get('controls'):
            for s in w['segments']:
                s['panels']['num_s'] = 1
    return dict(aircraft=ac, aero=draw(gen.aero()))


def explicit_equiv(case, ctx):
    ac = case['aircraft']
    nonplanar_ctl = any(w.get('controls') and any(
        abs(np.linalg.det([np.subtract(s['vertices'][k], s['vertices']['a']) for k in 'bcd'])) > 1e-9
        for s in w['segments']) for w in ac['wings'])
    r1 = sim.run_case(ctx, ac, case['aero'])
    r2 = sim.run_case(ctx, explicit(ac), case['aero'], name='q')
    gen.describe(ac, ctx)
    n = len(r1.lat.p)
    if len(r2.lat.p) != n and trans.undecided(ac, r1.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    require(len(r2.lat.p) == n, f'{n} panels with the symmetry flag, {len(r2.lat.p)} for the explicit model')
    scale = 1 + np.abs(r1.lat.p).max()
    c1, c2 = r1.lat.p.mean(axis=1), r2.lat.p.mean(axis=1)
    d = np.linalg.norm(c1[:, None] - c2[None], axis=2)
    j = d.argmin(axis=1)
    # interpolation of control edges on twisted segments depends on the end one starts from
    ptol = 2e-2 if nonplanar_ctl else 1e-8
    if nonplanar_ctl:
        ctx.label('controls on twisted segments (mesh not compared exactly)')
        require(d.min(axis=1).max() < ptol*scale, 'panels of the flagged and of the explicit model differ')
        ctx.nontrivial(False)
        return
    require(len(set(j.tolist())) == n and d.min(axis=1).max() < ptol*scale,
            'panels of the flagged and of the explicit model differ')
    close(r2.lat.p[j], r1.lat.p, 'panel corners', atol=ptol*scale)
    ntol = 3e-4 if gen.cambered(ac) else 1e-9
    close(r2.lat.n[j], r1.lat.n, 'normals', atol=ntol)
    A = np.asarray(r1.data.matrix_downwash)
    cond = np.linalg.cond(A)
    if not cond < 1e6:
        raise Skip('ill-conditioned configuration')
    g1, g2 = r1.data.panelwise['gamma'], r2.data.panelwise['gamma'][j]
    gs = np.abs(g1).max() + 1e-6*case['aero']['airspeed']
    tol = 10*(1e-9 + 1e-12*cond)*min(cond, 100) + 1e-9
    # what the differences between the normals (camber slopes) explain
    e = trans.effect(r1, np.linalg.norm(np.asarray(r2.lat.n)[j] - np.asarray(r1.lat.n), axis=1), r2, j)
    if e['big']:
        raise Skip('too sensitive')
    close(g2, g1, 'circulation', atol=tol*gs + e['gamma'])
    fs = np.abs(np.asarray([r1.data.panelwise[k] for k in ('fx', 'fy', 'fz')])).sum() + 1e-3*case['aero']['density']*case['aero']['airspeed']**2
    for k in ('x', 'y', 'z', 'D', 'C', 'L'):
        close(r2.data.forces[k], r1.data.forces[k], f'force {k}', atol=4*tol*fs + e['F'])
    arm = scale + np.abs(ac['refs']['rcenter']).max()
    for k in ('l', 'm', 'n'):
        close(r2.data.forces[k], r1.data.forces[k], f'moment {k}', atol=8*tol*fs*arm + e['M'])
    ctx.nontrivial(np.abs(g1).max() > 0)


@st.composite
def side_cases(draw):
    ac = draw(gen.aircraft(symmetries=(2, 1, 3, 1, 3, 2, 0), controls=3, max_c=3, max_s=3))
    for w in ac['wings']:
        for c in w.get('controls', []):
            c['deflection'] = float(draw(gen.num(-60, 60, 0.01)))
            if draw(st.integers(0, 3)):
                c['deflection_mirror'] = float(draw(st.one_of(gen.num(-60, 60, 0.01), st.just(-c['deflection']), st.just(0.0))))
            else:
                c.pop('deflection_mirror', None)
    return dict(aircraft=ac)


def sides(case, ctx):
    """In the lattice: each side follows its own deflection, whatever the other side does, in all planes of symmetry"""
    ac = case['aircraft']

    def normals(which, name):
        a = copy.deepcopy(ac)
        for w in a['wings']:
            for c in w.get('controls', []):
                d = {'main': c['deflection'], 'mirror': c.get('deflection_mirror', c['deflection'])}
                if which:
                    c['deflection'] = c['deflection_mirror'] = d[which]
                    if which == 'main':
                        c.pop('deflection_mirror')      # the same on both sides
        return a, sim.run_case(ctx, a, upto='lattice', name=name).lat
    _, lat = normals(None, 'p')
    side = np.zeros(len(lat.n), dtype=bool)
    for part in mesh.parts(ac, lat).values():
        side[[i for r in part.idx for i in r]] = part.mirror
    gen.describe(ac, ctx)
    moved = False
    for which, rows in (('main', ~side), ('mirror', side)):
        _, l2 = normals(which, which)
        close(l2.p, lat.p, 'panel corners with other deflections', atol=0)
        close(np.asarray(l2.n)[rows], np.asarray(lat.n)[rows],
              f'normals of the {"modelled" if which == "main" else "mirrored"} side when the other side is deflected alike', atol=1e-9)
        if rows.any() and not rows.all():
            d = np.abs(np.asarray(l2.n)[~rows] - np.asarray(lat.n)[~rows])
            moved |= bool(d.max() > 1e-3)
    for w in ac['wings']:
        ctls = w.get('controls', [])
        if w['symmetry'] and ctls and all('deflection_mirror' in c for c in ctls):
            ctx.label(f'deflections of both sides, symmetry {w["symmetry"]}')
    ctx.nontrivial(moved)


SUBS = [
    Sub('image', image_cases(), image, 1200, 25000, 'at least one wing has a symmetry flag'),
    Sub('explicit', explicit_cases(), explicit_equiv, 700, 15000,
        'non-zero circulation and panels compared one to one'),
    Sub('sides', side_cases(), sides, 500, 10000, 'the other side changes when it is deflected alike'),
]
