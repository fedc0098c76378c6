"""Superposition: at fixed flow angles the circulation is linear in airspeed and angular rates, and blind to density."""
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, trans
from vk.core import Sub, Skip, require, close

RATES = ('rate_P', 'rate_Q', 'rate_R')


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(big=True, controls=2, max_c=4, max_s=4))
    a = draw(gen.aero())
    b = dict(a)
    b['airspeed'] = float(draw(gen.tame(0, 200, 0.1, (0.0,))))
    b['density'] = draw(gen.num(0.1, 2, 0.01))
    for k in RATES:
        a[k] = float(draw(gen.tame(-3, 3, 0.01, (0.0,))))
        b[k] = float(draw(gen.tame(-3, 3, 0.01, (0.0,))))
    return dict(aircraft=ac, a=a, b=b, s=draw(gen.num(-2, 2, 0.01)), t=draw(gen.num(-2, 2, 0.01)))


def superposition(case, ctx):
    ac, a, b, s, t = case['aircraft'], case['a'], case['b'], case['s'], case['t']
    # the combined airspeed must not be negative
    v = s*a['airspeed'] + t*b['airspeed']
    if v < 0:
        s, t, v = -s, -t, -v
    c = dict(a, airspeed=v, density=1.0)
    for k in RATES:
        c[k] = s*a[k] + t*b[k]
    with sim.quiet_fds():
        ra, rb, rc = [sim.run_case(ctx, ac, x) for x in (a, b, c)]
    cond = np.linalg.cond(ra.data.matrix_downwash)
    if not cond < 1e8:
        raise Skip('ill-conditioned system')
    close(rb.lat.n, ra.lat.n, 'normals (same geometry)', rtol=1e-12, atol=1e-12)
    ga, gb, gc = [np.asarray(r.data.panelwise['gamma']) for r in (ra, rb, rc)]
    sc = abs(s)*np.abs(ga).max() + abs(t)*np.abs(gb).max() + 1e-9
    close(gc, s*ga + t*gb, 'circulation of the combined motion', rtol=0, atol=sc*(1e-12*cond + 1e-11))
    wa, wb, wc = [np.stack([r.data.panelwise[k] for k in ('vx', 'vy', 'vz')]) for r in (ra, rb, rc)]
    wsc = abs(s)*np.abs(wa).max() + abs(t)*np.abs(wb).max() + 1e-9
    close(wc, s*wa + t*wb, 'induced velocity of the combined motion', rtol=0, atol=wsc*(1e-10*cond + 1e-9))
    ctx.nontrivial(np.abs(ga).max() > 1e-6 and np.abs(gb).max() > 1e-6 and s and t)
    gen.describe(ac, ctx)


@st.composite
def rest_cases(draw):
    ac = draw(gen.aircraft(big=True, controls=2, max_c=3, max_s=3))
    a = draw(gen.aero())
    return dict(aircraft=ac, a=a, b=draw(st.sampled_from(['rest', 'vacuum', 'denser'])), d=draw(gen.num(0.1, 4, 0.01)))


def rest(case, ctx):
    """No motion, no load; no air, no load; more density, same circulation and proportional load"""
    ac, a = case['aircraft'], case['a']
    ctx.label(case['b'])
    gen.describe(ac, ctx)
    if case['b'] == 'rest':
        a2 = dict(a, airspeed=0.0, rate_P=0.0, rate_Q=0.0, rate_R=0.0)
    elif case['b'] == 'vacuum':
        a2 = dict(a, density=0.0)
    else:
        a2 = dict(a, density=a['density']*case['d'])
    with sim.quiet_fds():
        r2 = sim.run_case(ctx, ac, a2)
        r = sim.run_case(ctx, ac, a) if case['b'] != 'rest' else None
    if case['b'] in ('rest', 'vacuum'):
        for k in 'xyzDCLlmn':
            require(r2.data.forces[k] == 0, f'load {k} = {r2.data.forces[k]} without {"motion" if case["b"] == "rest" else "air"}')
            require(r2.data.coeffs[k] == 0, f'coefficient {k} = {r2.data.coeffs[k]} without {"motion" if case["b"] == "rest" else "air"}')
    if case['b'] == 'rest':
        require(not np.any(r2.data.panelwise['gamma']), 'circulation without motion')
        ctx.nontrivial(True)
    else:
        close(r2.data.panelwise['gamma'], r.data.panelwise['gamma'], 'circulation', rtol=1e-12)
        if case['b'] == 'denser':
            for k in ('fx', 'fy', 'fz'):
                f = np.asarray(r.data.panelwise[k])
                close(r2.data.panelwise[k], case['d']*f, f'panel force {k}', rtol=1e-9, atol=1e-11*np.abs(f).max() + 1e-300)
            close(r2.data.panelwise['cp'], r.data.panelwise['cp'], 'pressure coefficients', rtol=1e-8,
                  atol=1e-10*np.abs(r.data.panelwise['cp']).max() + 1e-300)
        ctx.nontrivial(np.abs(r.data.panelwise['gamma']).max() > 1e-9)


SUBS = [
    Sub('superposition', cases(), superposition, 900, 20000, 'both motions produce circulation and both weights are non-zero'),
    Sub('rest', rest_cases(), rest, 700, 15000, 'the unmodified motion produces circulation'),
]
