"""Similarity laws: speed, density, size, place and attitude of the whole experiment."""
import copy
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, trans
from vk.core import Sub, Skip, require, close

COND_MAX = 1e6


@st.composite
def base(draw, symmetries=(2, 0, 1, 3), **kw):
    simple = draw(st.sampled_from([True, None]))
    return dict(aircraft=draw(gen.aircraft(big=True, controls=2, max_c=4, max_s=3, symmetries=symmetries, simple_airfoil=simple, **kw)),
                aero=draw(gen.aero()))


def run(ctx, ac, aero):
    r = sim.run_case(ctx, ac, aero)
    tol, F0, M0, cond = trans.tolerances(r)
    if not cond < COND_MAX:
        raise Skip('ill-conditioned system')
    return r, tol, F0, M0


def apart(r, r2, ac, pmap, rot=np.eye(3), ptol=1e-8, kv=1.0):
    """
    What the (tiny) differences between the normals can do to the loads: camber slopes are derivatives of a piecewise linear
    line, rounding decides about control points on its knots
    """
    j = trans.pair(r, r2, 'the other aircraft', pmap, ptol)
    if j is None and trans.undecided(ac, r.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    require(j is not None, 'the mesh of the transformed aircraft is not the transformed mesh')
    dn = trans.normals_apart(r, r2, j, rot)
    close(dn, 0*dn, 'normals of the transformed aircraft', atol=(3e-4 if gen.cambered(ac) else 0) + 10*ptol)
    e = trans.effect(r, dn, r2, j, kv)
    if e['big']:
        raise Skip('too sensitive')
    return e


def compare(r, r2, kF, kM, tol, F0, M0, rot=None, coeffs=True, e=None):
    extra = dict(F=0.0, M=0.0) if e is None else e
    eF, eM = extra['F'], extra['M']
    F, M, W = trans.loads(r.data)
    F2, M2, W2 = trans.loads(r2.data)
    if rot is not None:
        F, M = rot @ F, rot @ M
    close(F2, kF*F, 'total force', rtol=0, atol=kF*(tol*F0 + eF))
    close(M2, kM*M, 'total moment', rtol=0, atol=kM*(tol*M0 + eM))
    if rot is None:
        close(W2, kF*W, 'drag, side force, lift', rtol=0, atol=kF*(tol*F0 + eF))
        if coeffs:
            q = 0.5*r.cur.aero['density']*r.cur.aero['airspeed']**2
            R = r.aircraft.refs
            for k in ('x', 'y', 'z', 'D', 'C', 'L'):
                close(r2.data.coeffs[k], r.data.coeffs[k], f'coefficient {k}', rtol=0, atol=(tol*F0 + eF)/(q*R['area']))
            for k, l in (('l', 'span'), ('m', 'chord'), ('n', 'span')):
                close(r2.data.coeffs[k], r.data.coeffs[k], f'coefficient {k}', rtol=0, atol=(tol*M0 + eM)/(q*R['area']*R[l]))


@st.composite
def speed_cases(draw):
    c = draw(base())
    c['k'] = float('%.6g' % (draw(gen.num(0.05, 5, 0.01))*draw(st.sampled_from([1, 1, 1, 10, 1e-2, 1e-4]))))
    c['d'] = float('%.6g' % (draw(gen.num(0.05, 8, 0.01))*draw(st.sampled_from([1, 1, 1, 100, 1e-2, 1e-4]))))
    return c


def speed(case, ctx):
    ac, a = case['aircraft'], case['aero']
    k, d = case['k'], case['d']
    r, tol, F0, M0 = run(ctx, ac, a)
    a2 = dict(a, airspeed=a['airspeed']*k, density=a['density']*d)
    for p in ('rate_P', 'rate_Q', 'rate_R'):
        a2[p] = a[p]*k
    r2 = sim.run_case(ctx, ac, a2)
    compare(r, r2, k*k*d, k*k*d, tol, F0, M0)
    close(r2.data.panelwise['cp'], r.data.panelwise['cp'], 'panel pressure coefficients', rtol=100*tol,
          atol=100*tol*np.abs(r.data.panelwise['cp']).max() + 1e-9)
    close(r2.data.panelwise['gamma'], k*np.asarray(r.data.panelwise['gamma']), 'circulation', rtol=10*tol,
          atol=10*tol*k*np.abs(r.data.panelwise['gamma']).max() + 1e-9*k*a['airspeed'])
    ctx.nontrivial(F0 > 1e-6 and k != 1)
    if not 0.05 <= k <= 5:
        ctx.label('very slow or very fast')
    gen.describe(ac, ctx)


@st.composite
def size_cases(draw):
    c = draw(base())
    c['k'] = draw(st.one_of(gen.num(0.1, 1, 0.01), gen.num(1, 4, 0.01), gen.num(0.01, 0.1, 0.001)))
    return c


def size(case, ctx):
    ac, a = case['aircraft'], case['aero']
    k = case['k']
    r, tol, F0, M0 = run(ctx, ac, a)
    ac2 = trans.vmap(ac, lambda p: [x*k for x in p])
    ac2['refs'].update(area=ac['refs']['area']*k*k, chord=ac['refs']['chord']*k, span=ac['refs']['span']*k)
    a2 = dict(a)
    for p in ('rate_P', 'rate_Q', 'rate_R'):
        a2[p] = a[p]/k
    r2 = sim.run_case(ctx, ac2, a2)
    # the wake is cut off at a fixed (large) distance
    extent = np.ptp(r.lat.p.reshape(-1, 3), axis=0).max()
    tol = tol + 4*extent*max(k, 1)/1e4
    F, M, W = trans.loads(r.data)
    compare(r, r2, k*k, k**3, tol, F0, M0, e=apart(r, r2, ac, lambda p: p*k, kv=1/k))
    ctx.nontrivial(F0 > 1e-6 and k != 1)
    gen.describe(ac, ctx)


@st.composite
def place_cases(draw):
    c = draw(base())
    f = draw(st.sampled_from([1, 1, 10, 1000]))
    c['shift'] = [f*x for x in draw(st.lists(gen.num(-30, 30, 0.1), min_size=3, max_size=3))]
    return c


def place(case, ctx):
    """Translation (within the symmetry planes used) of aircraft and reference points"""
    ac, a = case['aircraft'], case['aero']
    s = list(case['shift'])
    for w in ac['wings']:
        if w['symmetry']:
            s[{1: 2, 2: 1, 3: 0}[w['symmetry']]] = 0.0
    r, tol, F0, M0 = run(ctx, ac, a)
    ac2 = trans.vmap(ac, lambda p: [x + y for x, y in zip(p, s)])
    r2 = sim.run_case(ctx, ac2, a)
    compare(r, r2, 1, 1, tol + 1e-7*max(1, np.abs(s).max()/100), F0, M0, e=apart(r, r2, ac, lambda p: p + np.array(s)))
    ctx.nontrivial(F0 > 1e-6 and any(s))
    if max(map(abs, s)) > 1000:
        ctx.label('far away')
    gen.describe(ac, ctx)


@st.composite
def attitude_cases(draw):
    axis = draw(st.sampled_from(['y', 'y', 'x', 'any']))
    c = draw(base(symmetries=(0, 2) if axis == 'y' else (0,), allow_vertical=axis == 'y'))
    if axis == 'any':
        # generic axis close to y so that the wings stay well inside the definition range
        c['axis'] = [draw(gen.num(-0.5, 0.5, 0.1)), 1.0, draw(gen.num(-0.5, 0.5, 0.1))]
    else:
        c['axis'] = dict(x=[1.0, 0.0, 0.0], y=[0.0, 1.0, 0.0])[axis]
    c['angle'] = draw(gen.num(-20, 20, 1))
    return c


def attitude(case, ctx):
    """Rotating aircraft, reference points, angular rates and flow together rotates the loads"""
    from vk import ref
    ac, a = case['aircraft'], case['aero']
    r, tol, F0, M0 = run(ctx, ac, a)
    Rm = trans.rotmat(case['axis'], case['angle'])
    ac2 = trans.vmap(ac, lambda p: list(Rm @ np.asarray(p, float)))
    d = Rm @ ref.freestream_dir(a['alpha'], a['beta'])
    al, be = trans.alpha_beta(d)
    om = Rm @ np.array([a['rate_P'], a['rate_Q'], a['rate_R']])
    a2 = dict(a, alpha=al, beta=be, rate_P=om[0], rate_Q=om[1], rate_R=om[2])
    r2 = sim.run_case(ctx, ac2, a2)
    e = apart(r, r2, ac, lambda p: p @ Rm.T, Rm)
    t = tol + 1e-6
    compare(r, r2, 1, 1, t, F0, M0, rot=Rm, e=e)
    D, D2 = r.data.forces['D'], r2.data.forces['D']
    close(D2, D, 'drag', rtol=0, atol=t*F0 + e['F'])
    ctx.nontrivial(F0 > 1e-6 and case['angle'] != 0)
    ctx.label('axis ' + ('y' if case['axis'] == [0, 1, 0] else 'other'))
    gen.describe(ac, ctx)


SUBS = [
    Sub('speed', speed_cases(), speed, 500, 10000, 'non-zero loads and speed changed'),
    Sub('size', size_cases(), size, 500, 10000, 'non-zero loads and size changed'),
    Sub('place', place_cases(), place, 500, 10000, 'non-zero loads and a real translation'),
    Sub('attitude', attitude_cases(), attitude, 600, 10000, 'non-zero loads and a real rotation'),
]
