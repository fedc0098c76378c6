"""Panel singularities, control points, normals and lattice metrics follow from the panel corners."""
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, require, close


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(big=True)), aero=draw(gen.aero(rates=False, amax=90)))


def placement(case, ctx):
    r = sim.run_case(ctx, case['aircraft'], case['aero'], sim.make_settings(_do_normal_rotations=False), upto='lattice')
    lat = r.lat
    p = np.asarray(lat.p)
    n = len(p)
    P, Q, R, S = (p[:, k] for k in range(4))
    L = np.abs(p).max() + 1.0
    gen.describe(case['aircraft'], ctx)
    ctx.nontrivial(n > 1)
    t = dict(rtol=1e-11, atol=1e-12*L)

    v = np.asarray(lat.v)
    close(v[:, 1], P + 0.25*(S - P), 'inner end of the bound vortex (quarter chord)', **t)
    close(v[:, 2], Q + 0.25*(R - Q), 'outer end of the bound vortex (quarter chord)', **t)
    close(lat.bound_leg_midpoints, 0.5*(v[:, 1] + v[:, 2]), 'bound vortex midpoint', **t)
    mid_le, mid_te = 0.5*(P + Q), 0.5*(R + S)
    close(lat.c, mid_le + 0.75*(mid_te - mid_le), 'control point (three-quarter chord)', **t)

    d = ref.freestream_dir(case['aero']['alpha'], case['aero']['beta'])
    for k, e, name in ((0, 1, 'inner'), (3, 2, 'outer')):
        leg = v[:, k] - v[:, e]
        ln = np.linalg.norm(leg, axis=1)
        require(bool((ln > 1000).all()), f'{name} trailing leg is only {ln.min()} long')
        close(leg/ln[:, None], np.tile(d, (n, 1)), f'direction of the {name} trailing vortex', atol=1e-9)

    # normal of the bilinear panel surface at the control point
    chord = mid_te - mid_le
    span75 = (Q + 0.75*(R - Q)) - (P + 0.75*(S - P))
    cr = np.cross(span75, chord)
    want = cr/np.linalg.norm(cr, axis=1)[:, None]
    close(lat.n, want, 'panel normal', rtol=0, atol=1e-9)

    # metrics
    sv, cv = 0.5*(Q - P + R - S), 0.5*(S - P + R - Q)
    area = 0.5*np.linalg.norm(np.cross(R - P, S - Q), axis=1)
    close(lat.a, area, 'panel area', rtol=1e-9, atol=1e-12)
    asp = np.linalg.norm(sv, axis=1)/np.linalg.norm(cv, axis=1)
    for key, want in (('area_min', area.min()), ('area_max', area.max()), ('area_avg', area.mean()),
                      ('aspect_min', asp.min()), ('aspect_max', asp.max()), ('aspect_avg', asp.mean())):
        close(lat.info[key], want, f'reported {key}', rtol=1e-9)


def unit_normals(case, ctx):
    r = sim.run_case(ctx, case['aircraft'], case['aero'], upto='lattice')
    close(np.linalg.norm(r.lat.n, axis=1), np.ones(len(r.lat.n)), 'length of the normals', atol=1e-9)
    r0 = sim.run_case(ctx, case['aircraft'], case['aero'], sim.make_settings(_do_normal_rotations=False), upto='lattice')
    for k in ('p', 'v', 'c', 'a', 'bound_leg_midpoints'):
        require(np.array_equal(getattr(r.lat, k), getattr(r0.lat, k)),
                f'deflection/camber moved lattice.{k} (only normals may turn)')
    gen.describe(case['aircraft'], ctx)
    ctx.nontrivial(not np.array_equal(r.lat.n, r0.lat.n))


SUBS = [
    Sub('placement', cases(), placement, 2000, 50000, 'more than one panel'),
    Sub('large', st.fixed_dictionaries(dict(aircraft=gen.large(), aero=gen.aero(rates=False, amax=90))), placement, 32, 400, 'every case'),
    Sub('unit_normals', cases(), unit_normals, 600, 10000, 'camber or deflection turned at least one normal'),
]
