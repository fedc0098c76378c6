"""Flow tangency: after the standard analysis no net flow crosses any panel at its control point."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.core import Sub, require, finite, Skip


@st.composite
def cases(draw):
    c = dict(aircraft=draw(gen.aircraft(big=True)), aero=draw(gen.aero()))
    # most often one flight state, sometimes several in a row
    return further(draw, c)


@st.composite
def large_cases(draw):
    return further(draw, dict(aircraft=draw(gen.large()), aero=draw(gen.aero())), (0, 0, 0, 1))


def further(draw, c, how=(0, 0, 0, 1, 2)):
    c['further'] = [draw(gen.aero()) for _ in range(draw(st.sampled_from(how)))]
    return c


def solved(case, ctx):
    states = [case['aero']] + case['further']
    gen.describe(case['aircraft'], ctx)
    d = sim.fresh_dir(ctx, 'p')
    aero = {k: [a[k] for a in states] for k in states[0]} if len(states) > 1 else states[0]
    f = sim.write_project(d, case['aircraft'], aero)
    s, ac, state = sim.load_project(f)
    for i, (cur, lat, data) in enumerate(sim.stages(s, ac, state)):
        sim.size_label(ctx, lat)
        solved_state(case['aircraft'], states[i], lat, data, ctx)
    require(i == len(states) - 1, f'{i + 1} analyses of {len(states)} states')
    ctx.label(f'{len(states)} states')


def solved_state(aircraft, aero, lat, data, ctx):
    cg = aircraft['refs']['gcenter']
    g = np.asarray(data.panelwise['gamma'])
    require(g.shape == (len(lat.a),), f'{g.shape} circulation values for {len(lat.a)} panels')
    w, wt = ref.induced(lat.c, lat.v, lat.epsilon, tol=True)
    A = np.einsum('ijx,ix->ij', w, lat.n)
    cond = np.linalg.cond(A)
    ctx.nontrivial(len(g) > 1 and np.abs(g).max() > 0)
    if not np.isfinite(cond) or cond > 1e10:
        raise Skip('singular configuration')
    require(finite(g), 'circulation is not finite')
    through = np.einsum('ijx,j->ix', w, g) + ref.onset(lat.c, aero, cg)
    leak = np.einsum('ix,ix->i', through, lat.n)
    tol = np.abs(g) @ wt.T + 1e-9*(np.abs(A) @ np.abs(g)) + 1e-12*aero['airspeed']
    bad = np.abs(leak) > tol
    if bad.any():
        i = int(np.argmax(np.abs(leak)/tol))
        require(False, f'flow through panel {i}: {leak[i]!r} m/s (tolerance {tol[i]:.1e}, {int(bad.sum())} of {len(g)} panels)')


@st.composite
def degenerate_cases(draw):
    """Wings which coincide, overlap or lie in their own symmetry plane, exactly or nearly"""
    ac = draw(gen.aircraft(max_wings=1, symmetries=(0, 0, 2), controls=1))
    how = draw(st.sampled_from(['twin', 'twin', 'nearly', 'panel', 'crossing', 'in plane']))
    w = ac['wings'][0]
    if how in ('twin', 'nearly', 'panel'):
        twin = copy.deepcopy(w)
        twin['uid'] += '_twin'
        move = np.zeros(3)
        if how == 'nearly':
            move = 10.0**-draw(st.integers(3, 14))*np.array([draw(st.integers(-2, 2)) for _ in range(3)])
        elif how == 'panel':
            v = w['segments'][0]['vertices']
            n = w['segments'][0].get('panels', {}).get('num_s') or 2
            move = (np.array(v['b']) - v['a'])/n
        for seg in twin['segments']:
            seg['vertices'] = {k: (np.array(x) + move).tolist() for k, x in seg['vertices'].items()}
        ac['wings'].append(twin)
    else:
        c, span, dz = draw(gen.num(0.5, 2)), draw(gen.num(0.5, 4)), draw(gen.num(-0.5, 0.5))
        a, b = ([0., -span, 0.], [0., span, 0.]) if how == 'crossing' else ([0., 0., 0.], [0.3, 0., span])
        vertices = dict(a=a, b=b, c=[b[0] + c, b[1], b[2]], d=[a[0] + c, a[1], a[2]])
        for x in vertices.values():
            x[2] += dz
        w.update(symmetry=2, controls=[])
        w['segments'] = [dict(w['segments'][0], vertices=vertices)]
    return dict(aircraft=ac, aero=draw(gen.aero()), how=how)


def degenerate(case, ctx):
    """An aircraft whose system has no solution is refused, without results; all others are solved"""
    ctx.label(case['how'])
    d = sim.fresh_dir(ctx, 'p')
    f = sim.write_project(d, case['aircraft'], case['aero'], sim.make_settings(save_results={'global': True, 'panelwise': True}))
    s, ac, state = sim.load_project(f)
    cur, lat, data = sim.first(sim.stages(s, ac, state, upto='boundary'))
    A, b = np.array(data.matrix_downwash), np.array(data.array_rhs)
    if not (finite(A) and finite(b)):
        raise Skip('control point on a vortex')
    ctx.nontrivial(np.abs(b).max() > 0)
    try:
        res = sim.standard_run(f)
    except np.linalg.LinAlgError:
        s = np.linalg.svd(A, compute_uv=False)
        require(s[-1] < 1e-9*s[0], 'a regular system was refused')
        written = [n for _, _, names in os.walk(os.path.join(d, '_results')) for n in names]
        require(not written, f'no solution, but there are results: {written}')
        ctx.label('refused')
        return
    ctx.label('solved')
    g = np.asarray(res['vlmdata'].panelwise['gamma'])
    require(g.shape == b.shape and finite(g), 'circulation is not finite')
    leak = np.abs(A @ g - b)
    size = np.abs(A).max()*np.abs(g).max()*len(g) + np.abs(b).max()
    require(leak.max() <= 1e-9*size, f'flow through panel {int(leak.argmax())}: {leak.max()!r} m/s (sizes of terms {size:.3e} m/s)')


SUBS = [
    Sub('tangency', cases(), solved, 2500, 12000,
        'more than one panel and a non-zero circulation'),
    Sub('degenerate', degenerate_cases(), degenerate, 320, 4000, 'some onset flow'),
    Sub('large', large_cases(), solved, 32, 400, 'non-zero circulation'),
]
