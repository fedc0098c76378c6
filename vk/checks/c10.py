"""Panel loads, totals and moments are those of Kutta-Joukowski on the solved circulation."""
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, Skip, require, close


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(big=True, controls=2, max_c=4, max_s=4)), aero=draw(gen.aero(amax=30)),
                eps=draw(st.sampled_from([1e-6, 1e-6, 1e-5, 1e-8, 1e-3])))


def kj(case, ctx):
    ac, aero = case['aircraft'], case['aero']
    r = sim.run_case(ctx, ac, aero, sim.make_settings(_epsilon=case['eps']))
    g = np.asarray(r.data.panelwise['gamma'], dtype=float)
    o = ref.forces(r.lat.bound_leg_midpoints, r.lat.v, r.lat.n, r.lat.a, g, aero, ac['refs'], case['eps'])
    _, tolw = ref.induced(r.lat.bound_leg_midpoints, r.lat.v, case['eps'], tol=True)
    pw = r.data.panelwise
    ind = np.stack([pw['vx'], pw['vy'], pw['vz']], axis=1)
    tv = tolw @ np.abs(g) + 1e-12*np.abs(ref.induced(r.lat.bound_leg_midpoints, r.lat.v, case['eps'])).sum(axis=2) @ np.abs(g)
    for k in range(3):
        close(ind[:, k], o['ind'][:, k], f'induced velocity component {k}', atol=tv + 1e-13)
    close(pw['vmag'], np.linalg.norm(ind, axis=1), 'magnitude of induced velocity', rtol=1e-10, atol=1e-300)
    f = np.stack([pw['fx'], pw['fy'], pw['fz']], axis=1)
    leg = np.linalg.norm(r.lat.v[:, 2] - r.lat.v[:, 1], axis=1)
    vsc = np.linalg.norm(ref.onset(r.lat.bound_leg_midpoints, aero, ac['refs']['gcenter']), axis=1) + np.linalg.norm(ind, axis=1)
    tf = aero['density']*np.abs(g)*leg*(tv + 1e-11*vsc)*2
    for k in range(3):
        close(f[:, k], o['f'][:, k], f'panel force component {k}', atol=tf + 1e-14)
    close(pw['fmag'], np.linalg.norm(f, axis=1), 'magnitude of panel force', rtol=1e-10, atol=1e-300)
    q = o['q']
    close(pw['cp'], np.einsum('ix,ix->i', f, r.lat.n)/(q*r.lat.a), 'pressure coefficient', rtol=1e-9,
          atol=1e-11*np.linalg.norm(f, axis=1)/(q*r.lat.a) + 1e-300)
    # totals: plain sums of the reported panel forces
    sc = np.abs(f).sum() + 1e-30
    got = [r.data.forces[k] for k in 'xyz']
    close(got, f.sum(axis=0), 'total force', rtol=0, atol=1e-11*sc)
    arm = r.lat.bound_leg_midpoints - np.asarray(ac['refs']['rcenter'], dtype=float)
    M = np.cross(arm, f).sum(axis=0)
    asc = (np.linalg.norm(arm, axis=1)*np.linalg.norm(f, axis=1)).sum()
    close([r.data.forces[k] for k in 'lmn'], M, 'total moment about the reference point', rtol=0, atol=1e-11*asc + 1e-30)
    close(r.cur.refs['rcenter'], ac['refs']['rcenter'], 'rcenter', atol=0)
    gen.describe(ac, ctx)
    ctx.nontrivial(np.abs(g).max() > 1e-6 and len(g) > 1)


@st.composite
def shift_cases(draw):
    c = draw(cases())
    c['shift'] = draw(st.lists(gen.num(-20, 20, 0.1), min_size=3, max_size=3))
    return c


def moment_shift(case, ctx):
    """Moving only the moment reference point shifts the moment by the force's lever arm and changes nothing else"""
    import copy
    ac, aero = case['aircraft'], case['aero']
    r = sim.run_case(ctx, ac, aero)
    ac2 = copy.deepcopy(ac)
    ac2['refs']['rcenter'] = [a + b for a, b in zip(ac['refs']['rcenter'], case['shift'])]
    r2 = sim.run_case(ctx, ac2, aero)
    from vk import trans
    F, M, W = trans.loads(r.data)
    F2, M2, W2 = trans.loads(r2.data)
    close(F2, F, 'total force', rtol=1e-12)
    close(W2, W, 'wind-axis force', rtol=1e-12)
    sc = sum(np.abs(r.data.panelwise[k]).sum() for k in ('fx', 'fy', 'fz'))*60 + 1e-12
    close(M2, M - np.cross(case['shift'], F), 'moment about the moved reference point', rtol=0, atol=1e-11*sc)
    for k in 'xyzDCL':
        close(r2.data.coeffs[k], r.data.coeffs[k], f'coefficient {k}', rtol=1e-12)
    ctx.nontrivial(np.abs(F).max() > 1e-6 and any(case['shift']))


SUBS = [
    Sub('kutta_joukowski', cases(), kj, 1500, 30000, 'more than one panel and non-zero circulation'),
    Sub('large', st.fixed_dictionaries(dict(aircraft=gen.large(controls=2), aero=gen.aero(amax=30), eps=st.just(1e-6))), kj, 24, 400,
        'non-zero circulation'),
    Sub('moment_shift', shift_cases(), moment_shift, 500, 10000, 'reference point moved and non-zero force'),
]
