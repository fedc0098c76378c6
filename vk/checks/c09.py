"""Deflections and camber turn the panel normals by the right angle about the right axis."""
import copy
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, mesh, ctl, ref
from vk.core import Sub, require, close


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(big=True, controls=4, max_c=4, max_s=5)), aero=draw(gen.aero(rates=False)))


def axes_and_angles(ac, lat, corner=None):
    """
    Per panel: hinge axis and angle, camber axis and slope, from the input data.  'corner' moves points of the leading and
    trailing edge (deformed wings); in between, the edges of strips are straight.
    """
    parts = mesh.parts(ac, lat)
    n = len(lat.p)
    defl = [None]*n
    camb = [None]*n
    for w in ac['wings']:
        sym = w['symmetry']
        rows = {}
        for c in w.get('controls', []):
            for row in ctl.spans(w, c):
                rows[(row[0], c['uid'])] = (c, row)
        for k, s in enumerate(w['segments']):
            q = mesh.seg_corners(s)
            for m in ((False, True) if sym else (False,)):
                part = parts[(w['uid'], s['uid'], m)]
                flip = mesh.FLIP[sym] if m else np.ones(3)
                for e0, e1, quads, names, where in mesh.check_tiling(part, lat):
                    order = [i for r in part.idx for i in r]
                    for quad, name, pos in zip(quads, names, where):
                        i = order[pos]
                        x = quad[:, 1]
                        # chordwise position of the control point (3/4 panel chord, from the panel's own leading edge)
                        lo, hi = 0.5*(x[0] + x[1]), 0.5*(x[2] + x[3])
                        xc = lo + 0.75*(hi - lo) if not (m and sym == 3) else hi - 0.75*(hi - lo)
                        camb[i] = (s['airfoils'], 0.5*(e0 + e1), xc, -1.0 if (m and sym in (1, 3)) else 1.0)
                        if name is not None:
                            c, (_, ea, eb, _, _, ha, hb) = rows[(k, name)]
                            # the hinge is a straight line in space (on a twisted segment: the points closest to it)
                            h0 = ctl.straight(s, ea, ha, eb, hb, e0)
                            h1 = ctl.straight(s, ea, ha, eb, hb, e1)
                            if corner is None:
                                p0, p1 = mesh.bilinear(q, e0, h0)*flip, mesh.bilinear(q, e1, h1)*flip
                            else:
                                p0, p1 = ((1 - h)*corner(w['uid'], m, mesh.bilinear(q, e, 0.0)*flip)
                                          + h*corner(w['uid'], m, mesh.bilinear(q, e, 1.0)*flip)
                                          for e, h in ((e0, h0), (e1, h1)))
                            axis = p0 - p1 if (m and sym == 2) else p1 - p0
                            d = c.get('deflection_mirror', c['deflection']) if m else c['deflection']
                            defl[i] = (axis, d, hinge_tol(s))
    return defl, camb


def hinge_tol(seg):
    """On a twisted segment there is more than one way to put a straight hinge line into the surface"""
    if ctl.is_planar(seg):
        return 3e-5
    a, b, c, d = mesh.seg_corners(seg)
    return 3e-5 + 0.6*np.linalg.norm(np.cross(d - a, c - b))/np.linalg.norm(d - a)/max(np.linalg.norm(c - b), 1e-9)


def deflection(case, ctx):
    """Symmetric airfoils: only deflections turn normals, exactly those of the deflected controls"""
    ac = copy.deepcopy(case['aircraft'])
    for w in ac['wings']:
        for s in w['segments']:
            s['airfoils'] = dict(inner='NACA0012', outer='NACA0010')
    r = sim.run_case(ctx, ac, case['aero'], upto='lattice')
    r0 = sim.run_case(ctx, ac, case['aero'], sim.make_settings(_do_normal_rotations=False), upto='lattice')
    defl, _ = axes_and_angles(ac, r.lat)
    turned = 0
    gen.describe(ac, ctx)
    for i, d in enumerate(defl):
        n0 = r0.lat.n[i]
        if d is None or d[1] == 0:
            want, tol = n0, 1e-6
        else:
            want = ref.rot(d[0], math.radians(d[1])) @ n0
            tol = d[2]
            turned += 1
        close(r.lat.n[i], want, f'normal of panel {i} (deflection {None if d is None else d[1]})', atol=tol)
    ctx.nontrivial(turned > 0)


def camber(case, ctx):
    """Camber turns normals by the slope of the interpolated camber line, after any deflection"""
    from airfoils import Airfoil, MorphAirfoil
    ac = case['aircraft']
    r = sim.run_case(ctx, ac, case['aero'], upto='lattice')
    r0 = sim.run_case(ctx, ac, case['aero'], sim.make_settings(_do_normal_rotations=False), upto='lattice')
    defl, camb = axes_and_angles(ac, r.lat)
    cache = {}
    turned = 0
    gen.describe(ac, ctx)
    for i in range(len(r.lat.p)):
        foils, eta, x, sign = camb[i]
        key = (foils['inner'], foils['outer'], round(eta, 5))
        if key not in cache:
            mk = lambda f: Airfoil.NACA4(f.upper().replace('NACA', ''))
            cache[key] = MorphAirfoil(mk(foils['inner']), mk(foils['outer'])).at_eta(eta)
        lib = math.radians(float(cache[key].camber_line_angle(x)))
        n0 = r0.lat.n[i]
        P, Q, R, S = r.lat.p[i]
        tol = 1e-4
        if defl[i] is not None and defl[i][1] != 0:
            n0 = ref.rot(defl[i][0], math.radians(defl[i][1])) @ n0
            tol += defl[i][2]
        # axis in the surface, perpendicular to the local chord; panel surfaces are nearly planar
        chord = (R + S - P - Q)
        nrm = np.cross(Q + R - P - S, chord)
        axis = np.cross(nrm, chord)
        tw = abs(np.dot(np.cross(Q - P, S - P), R - P))/(np.linalg.norm(Q-P)*np.linalg.norm(S-P)*np.linalg.norm(R-P))
        if tw > 1e-9:
            tol = max(tol, 5e-3 + 2*tw*abs(lib))
        want = ref.rot(axis, sign*lib) @ n0
        # knots of the piecewise linear airfoil: slope jumps
        got = r.lat.n[i]
        err = np.abs(got - want).max()
        ktol = 0.0
        if err > tol:
            near = [math.radians(float(cache[key].camber_line_angle(x + dx))) for dx in (-3e-3, 3e-3)]
            ktol = abs(near[0] - near[1])
        require(err <= tol + ktol, f'normal of panel {i}: {got.tolist()}, expected {want.tolist()} '
                                   f'(camber slope {math.degrees(lib):.3f} deg, tolerance {tol:.1e})')
        if lib:
            turned += 1
    ctx.nontrivial(turned > 0)


SUBS = [
    Sub('deflection', cases(), deflection, 700, 15000, 'at least one panel of a deflected control'),
    Sub('camber', cases(), camber, 400, 8000, 'at least one panel with non-zero camber slope'),
]
