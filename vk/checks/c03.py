"""Onset flow: free stream plus rotation about the centre of gravity, as seen by every control point."""
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, require, close


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(big=True)), aero=draw(gen.aero(amax=90, speed0=True)))


def boundary(case, ctx):
    r = sim.run_case(ctx, case['aircraft'], case['aero'], upto='boundary')
    lat, aero = r.lat, case['aero']
    cg = np.array(case['aircraft']['refs']['gcenter'])
    n = len(lat.a)
    got = np.asarray(r.data.array_rhs)
    require(got.shape == (n,), f'right-hand side has shape {got.shape} for {n} panels')
    om = np.linalg.norm([aero['rate_P'], aero['rate_Q'], aero['rate_R']])
    scale = aero['airspeed'] + om*np.linalg.norm(lat.c - cg, axis=1)
    gen.describe(case['aircraft'], ctx)
    rot = om > 0
    if rot:
        ctx.label('rotating')
    if rot and cg.any():
        ctx.label('rotating about an offset centre')
    if aero['airspeed'] == 0:
        ctx.label('no forward speed')
    ctx.nontrivial(n > 1 and np.abs(got).max() > 0)
    close(got, ref.rhs(lat.c, lat.n, aero, cg), 'normal component of the (reversed) onset flow', rtol=1e-11, atol=1e-13, scale=scale)
    fs = aero['airspeed']*ref.freestream_dir(aero['alpha'], aero['beta'])
    close(r.cur.free_stream_velocity_vector, fs, 'free stream vector', rtol=1e-12, atol=1e-12, scale=aero['airspeed'])


SUBS = [
    Sub('boundary', cases(), boundary, 2500, 60000, 'more than one panel and a non-zero right-hand side'),
    Sub('large', st.fixed_dictionaries(dict(aircraft=gen.large(), aero=gen.aero(amax=90))), boundary, 32, 400, 'non-zero right-hand side'),
]
