"""Reflecting the whole experiment across the symmetry plane reflects the loads."""
import copy
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, trans
from vk.core import Sub, Skip, require, close

COND_MAX = 1e6


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(big=True, controls=3, max_c=4, max_s=4, symmetries=(2, 0, 2, 0, 1, 3), simple_airfoil=draw(st.sampled_from([True, None])))),
                aero=draw(gen.aero()))


def twisted(ac):
    from vk import ctl
    return any(not ctl.is_planar(s) for w in ac['wings'] if w.get('controls') for s in w['segments'])


def reflection(case, ctx):
    ac, aero = case['aircraft'], case['aero']
    if trans.near_lines(ac):
        raise Skip('control edge and regular division nearly coincide')
    r = sim.run_case(ctx, ac, aero)
    tol, F0, M0, cond = trans.tolerances(r)
    if not cond < COND_MAX:
        raise Skip('ill-conditioned system')
    F, M, W = trans.loads(r.data)
    r2 = sim.run_case(ctx, trans.reflect_xz(ac), trans.reflect_aero(aero))
    F2, M2, W2 = trans.loads(r2.data)
    flip = np.array([1.0, -1.0, 1.0])
    j = trans.pair(r, r2, 'reflected aircraft', lambda p: p*flip)
    tw = twisted(ac)
    if j is None and tw:
        # edges of controls on twisted segments are interpolated from their inner end
        raise Skip('controls on twisted segments divide the reflected aircraft differently')
    if j is None and trans.undecided(ac, r.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    require(j is not None, 'the mesh of the reflected aircraft is not the reflected mesh')
    dn = trans.normals_apart(r, r2, j, np.diag(flip))
    if tw:
        # ... and so are their hinge lines
        ctx.label('twisted with controls')
        if dn.max() > 1e-2:
            raise Skip('hinge lines on twisted segments depend on the direction')
    else:
        # camber slopes are numerical derivatives of a piecewise linear camber line: control points on its knots
        close(dn, 0*dn, 'normals of the reflected aircraft', atol=3e-4 if gen.cambered(ac) else 1e-7)
    e = trans.effect(r, dn, r2, j)
    if e['big']:
        raise Skip('too sensitive')
    close(F2, F*[1, -1, 1], 'total force of the reflected aircraft', rtol=0, atol=10*tol*F0 + e['F'])
    close(M2, M*[-1, 1, -1], 'total moment of the reflected aircraft', rtol=0, atol=10*tol*M0 + e['M'])
    close(W2, W*[1, -1, 1], 'wind-axis force of the reflected aircraft', rtol=0, atol=10*tol*F0 + e['F'])
    gen.describe(ac, ctx)
    ctx.nontrivial(np.abs(F[1]) > 1e-6*F0 or np.abs(M[0]) > 1e-6*M0)


@st.composite
def sym_cases(draw):
    ac = draw(gen.aircraft(big=True, controls=3, max_c=4, max_s=4, symmetries=(2,)))
    for w in ac['wings']:
        for c in w.get('controls', []):
            if draw(st.booleans()):
                c.pop('deflection_mirror', None)
            else:
                c['deflection_mirror'] = c['deflection']
    for k in ('gcenter', 'rcenter'):
        ac['refs'][k][1] = 0.0
    aero = draw(gen.aero())
    aero.update(beta=0.0, rate_P=0.0, rate_R=0.0)
    return dict(aircraft=ac, aero=aero)


def symmetric(case, ctx):
    """Symmetric aircraft in symmetric flight: no side force, rolling or yawing moment"""
    ac, aero = case['aircraft'], case['aero']
    r = sim.run_case(ctx, ac, aero)
    tol, F0, M0, cond = trans.tolerances(r)
    if not cond < COND_MAX:
        raise Skip('ill-conditioned system')
    F, M, W = trans.loads(r.data)
    e = trans.effect(r, np.zeros(len(r.lat.p)))
    if e['big']:
        raise Skip('too sensitive')
    require(abs(F[1]) <= tol*F0 + e['F'], f'side force {F[1]} (force scale {F0})')
    require(abs(M[0]) <= tol*M0 + e['M'], f'rolling moment {M[0]} (scale {M0})')
    require(abs(M[2]) <= tol*M0 + e['M'], f'yawing moment {M[2]} (scale {M0})')
    # the two halves carry the same circulation
    from vk import mesh
    g = np.asarray(r.data.panelwise['gamma'])
    parts = mesh.parts(ac, r.lat)
    for (w, s, m), p in parts.items():
        if m:
            q = parts[(w, s, False)]
            ia = [i for row in q.idx for i in row]
            a = g[ia]
            b = np.array([g[i] for row in p.idx for i in row])
            close(b, a, 'circulation of the mirrored half', rtol=tol, atol=tol*(np.abs(g).max() + 1e-3*aero['airspeed']*np.sqrt(r.lat.a.max())) + e['gamma'][ia])
    gen.describe(ac, ctx)
    ctx.nontrivial(np.abs(F[2]) > 1e-6*F0 and F0 > 1e-6)


SUBS = [
    Sub('reflection', cases(), reflection, 900, 20000, 'reflected and original loads differ (side force or rolling moment)'),
    Sub('symmetric', sym_cases(), symmetric, 700, 15000, 'symmetric aircraft with non-zero lift'),
]
