"""Influence matrix: entry (i, j) is the normal velocity at control point i due to a unit horseshoe vortex j."""
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, require, finite


@st.composite
def cases(draw):
    s = {}
    if draw(st.booleans()):
        s['_epsilon'] = draw(st.sampled_from([1e-6, 1e-3, 1e-9, 0.1, 1e-4]))
    return dict(aircraft=draw(gen.aircraft(big=True)), aero=draw(gen.aero()), settings=s)


def matrix(case, ctx):
    r = sim.run_case(ctx, case['aircraft'], case['aero'], sim.make_settings(**case['settings']), upto='boundary')
    lat, data = r.lat, r.data
    n = len(lat.a)
    got = np.asarray(data.matrix_downwash)
    require(got.shape == (n, n), f'matrix shape {got.shape} for {n} panels')
    eps = case['settings'].get('_epsilon', 1e-6)
    want, tol = ref.influence(lat.c, lat.n, lat.v, eps)
    gen.describe(case['aircraft'], ctx)
    if case['settings']:
        ctx.label('own smoothing parameter')
    ctx.nontrivial(n > 1)
    ok = np.isfinite(want) & (tol < 1e-3*(1 + np.abs(want)))
    bad = ok & ~(np.abs(got - want) <= tol + 1e-12*np.abs(want) + 1e-15)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, f'influence of vortex {j} on control point {i}: {got[i, j]!r}, Biot-Savart gives {want[i, j]!r} '
                       f'({int(bad.sum())} of {n*n} entries)')


def physical(case, ctx):
    """Against the classical finite-filament law (no smoothing), where smoothing cannot matter"""
    r = sim.run_case(ctx, case['aircraft'], case['aero'], upto='boundary')
    lat, data = r.lat, r.data
    n = len(lat.a)
    P = lat.c[:, None, None, :]
    x1, x2 = lat.v[None, :, :-1, :], lat.v[None, :, 1:, :]
    r1, r2, r0 = P - x1, P - x2, x2 - x1
    m1, m2 = np.linalg.norm(r1, axis=-1), np.linalg.norm(r2, axis=-1)
    cr = np.cross(r1, r2)
    c2 = np.einsum('ijkx,ijkx->ijk', cr, cr)
    with np.errstate(all='ignore'):
        k = np.einsum('ijkx,ijkx->ijk', r0, r1/m1[..., None] - r2/m2[..., None])/c2/(4*np.pi)
        w = k[..., None]*cr
    # distance of the control point from the filament, relative to the distance from its end points
    sin1 = np.sqrt(c2)/(m1*m2)
    coll = sin1 < 1e-9                      # on the line of the filament: no induction
    w[coll] = 0.0
    den = np.einsum('ijkx,ijkx->ijk', r1, r2) + m1*m2
    rel = np.abs(1e-6*m1*m2/np.where(den == 0, 1e-300, den))     # relative effect of smoothing
    rel = np.where(coll, 0, rel) + 1e-12/np.maximum(sin1, 1e-12)**2
    tol = np.einsum('ijk,ijk->ij', rel, np.linalg.norm(w, axis=-1)) + 1e-12
    want = np.einsum('ijkx,ix->ij', w, lat.n)
    got = np.asarray(data.matrix_downwash)
    ok = (rel.max(axis=2) < 0.05) & ~coll.any(axis=2)
    bad = ok & ~(np.abs(got - want) <= 3*tol)
    gen.describe(case['aircraft'], ctx)
    ctx.nontrivial(ok.sum() > 1)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, f'influence of vortex {j} on control point {i}: {got[i, j]!r}, classical law gives {want[i, j]!r}')


SUBS = [
    Sub('matrix', cases(), matrix, 1500, 40000, 'more than one panel'),
    Sub('large', st.fixed_dictionaries(dict(aircraft=gen.large(), aero=gen.aero(), settings=st.just({}))), matrix, 32, 400, 'every case'),
    Sub('physical', cases().map(lambda c: dict(c, settings={})), physical, 500, 10000,
        'at least two matrix entries where smoothing is negligible were compared'),
]
