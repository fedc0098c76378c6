"""Coefficients and wind-axis components follow the documented normalisation."""
import os
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, Skip, require, close


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(big=True, controls=1, max_c=3, max_s=3, max_segs=2))
    a = draw(gen.aero(amax=90, speed0=True))
    if draw(st.booleans()):
        a['alpha'], a['beta'] = [float(draw(st.sampled_from([0, 30, -30, 45, 60, 90, -90, 5]))) for _ in range(2)]
    if draw(st.integers(0, 9)) == 0:
        a['density'] = draw(st.sampled_from([0.0, 1.0]))
    if draw(st.integers(0, 2)) == 0:
        # tiny (but non-zero) dynamic pressures are not special
        a['airspeed'] = float('%.6g' % (a['airspeed']*10.0**-draw(st.integers(1, 6))))
        a['density'] = float('%.6g' % (a['density']*10.0**-draw(st.integers(0, 4))))
    return dict(aircraft=ac, aero=a)


def coeffs(case, ctx):
    ac, aero = case['aircraft'], case['aero']
    log = os.path.join(ctx.workdir, 'stderr.txt')
    with sim.quiet_fds(log):
        r = sim.run_case(ctx, ac, aero)
    text = open(log, errors='replace').read()
    F = np.array([r.data.forces[k] for k in 'xyz'])
    M = np.array([r.data.forces[k] for k in 'lmn'])
    if not np.all(np.isfinite(F)):
        raise Skip('singular system')
    W = ref.wind_axes(F, aero['alpha'], aero['beta'])
    sc = np.abs(F).max()
    close([r.data.forces[k] for k in 'DCL'], W, 'drag, side force, lift', rtol=0, atol=1e-12*sc + 1e-300)
    q = 0.5*aero['density']*aero['airspeed']**2
    if q == 0:
        require(text.strip() != '', 'dynamic pressure of zero replaced without any warning')
        q = 1.0
    R = ac['refs']
    S, c, b = R['area'], R['chord'], R['span']
    want = dict(zip('xyz', F/(q*S)))
    want.update(zip('DCL', np.array([r.data.forces[k] for k in 'DCL'])/(q*S)))
    want.update(l=M[0]/(q*S*b), m=M[1]/(q*S*c), n=M[2]/(q*S*b))
    for k, v in want.items():
        close(r.data.coeffs[k], v, f'coefficient {k}', rtol=1e-11, atol=1e-300)
    require(set(r.data.coeffs) == set(want) and set(r.data.forces) == set(want), 'reported quantities')
    if aero['airspeed'] == 0:
        ctx.label('zero airspeed')
    if 0 < q < 1e-2:
        ctx.label('tiny dynamic pressure')
    if abs(aero['alpha']) > 30 or abs(aero['beta']) > 30:
        ctx.label('large angles')
    ctx.nontrivial(sc > 0)


SUBS = [Sub('coefficients', cases(), coeffs, 2500, 40000, 'non-zero force')]
