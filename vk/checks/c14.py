"""Flight states: what a state file says is what is analysed; what is ambiguous or impossible is refused."""
import copy
import json
import os
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ref
from vk.isa import isa
from vk.core import Sub, Skip, require, close

RATES = ('rate_P', 'rate_Q', 'rate_R')
PAIRS = (('airspeed', 'density'), ('airspeed', 'altitude'), ('mach', 'altitude'))
AC = dict(uid='ac', refs=dict(gcenter=[0.3, 0, 0], rcenter=[0, 0, 0], area=2.0, chord=1.0, span=2.0),
          wings=[dict(uid='w', symmetry=0, segments=[dict(
              uid='s', vertices=dict(a=[0, 0, 0], b=[0.2, 2, 0.1], c=[1.2, 2, 0.1], d=[1, 0, 0]),
              airfoils=dict(inner='NACA0012', outer='NACA0012'), panels=dict(num_c=1, num_s=2))])])


def number(draw, key):
    if key == 'airspeed':
        v = draw(gen.tame(0, 300, 0.1, (100.0, 0.0)))
    elif key == 'density':
        v = draw(gen.tame(0, 2, 0.001, (1.225,)))
    elif key == 'altitude':
        v = draw(st.one_of(st.sampled_from([0.0, 11000.0, 20000.0, 32000.0, 47000.0, 1.0, -500.0]), gen.num(-1000, 75000, 1)))
    elif key == 'mach':
        v = draw(gen.tame(0, 0.9, 0.01, (0.3,)))
    elif key in RATES:
        v = draw(gen.tame(-3, 3, 0.01, (0.0,)))
    else:
        v = draw(st.one_of(st.sampled_from([0.0, 90.0, -90.0, 2.0]), gen.num(-90, 90, 0.1)))
    if draw(st.integers(0, 3)) == 0:
        # many digits, tiny values
        v = v + draw(st.integers(1, 10**6 - 1))*(1e-9 if v < 90 else -1e-9)
    return int(v) if draw(st.booleans()) and float(v).is_integer() else float(v)


@st.composite
def valid(draw):
    """A valid state file: single state or batch, unused quantities omitted or null"""
    pair = draw(st.sampled_from(PAIRS))
    n = draw(st.one_of(st.none(), st.integers(1, 5)))
    aero = {}
    keys = list(pair) + ['alpha', 'beta'] + list(RATES)
    for k in keys:
        aero[k] = number(draw, k) if n is None else [number(draw, k) for _ in range(n)]
    for k in ('airspeed', 'density', 'mach', 'altitude'):
        if k not in pair and draw(st.booleans()):
            aero[k] = None
    order = draw(st.permutations(sorted(aero)))
    return {k: aero[k] for k in order}


def load(ctx, aero, name='p'):
    d = sim.fresh_dir(ctx, name)
    f = sim.write_project(d, AC, aero)
    return sim.load_project(f)


def want_states(aero):
    n = max(len(v) if isinstance(v, list) else 1 for v in aero.values())
    out = []
    for i in range(n):
        g = {k: (v[i] if isinstance(v, list) else v) for k, v in aero.items()}
        if g.get('altitude') is not None:
            rho, a = isa(g['altitude'])
            g['density'] = rho
            if g.get('mach') is not None:
                g['airspeed'] = g['mach']*a
        out.append({k: g[k] for k in ('airspeed', 'density', 'alpha', 'beta') + RATES})
    return out


def resolve(case, ctx):
    aero = case
    want = want_states(aero)
    settings, aircraft, state = load(ctx, aero)
    got = []
    for cur in state.iter_states():
        got.append(dict(cur.aero))
        w = want[len(got) - 1] if len(got) <= len(want) else None
        if w is None:
            break
        close(np.asarray(cur.free_stream_velocity_vector, float), w['airspeed']*ref.freestream_dir(w['alpha'], w['beta']),
              'free-stream velocity vector', rtol=1e-4, atol=1e-9*abs(w['airspeed']))
    require(len(got) == len(want), f'{len(got)} flight states, expected {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
        require(set(g) == set(w), f'parameters {sorted(g)}')
        for k in w:
            # the atmosphere library uses slightly different constants
            tol = 1e-4 if (k in ('density', 'airspeed') and aero.get('altitude') is not None and k not in
                           [x for x in aero if aero[x] is not None]) else 1e-12
            close(g[k], w[k], f'flight state {i}: {k}', rtol=tol)
    ctx.label('batch' if isinstance(aero['alpha'], list) else 'single')
    ctx.label('+'.join(k for k in ('airspeed', 'mach', 'density', 'altitude') if aero.get(k) is not None))
    if any(v is None for v in aero.values()):
        ctx.label('null entries')
    ctx.nontrivial(any(w['airspeed'] for w in want))


BAD = ('combination', 'lengths', 'angle', 'scalar_in_batch', 'text', 'missing')


@st.composite
def invalid(draw):
    aero = draw(valid())
    kind = draw(st.sampled_from(BAD))
    n = len(aero['alpha']) if isinstance(aero['alpha'], list) else None
    mk = lambda k: number(draw, k) if n is None else [number(draw, k) for _ in range(n)]
    if kind == 'combination':
        keys = set(k for k in ('airspeed', 'density', 'mach', 'altitude') if draw(st.booleans()))
        if tuple(sorted(keys)) in [tuple(sorted(p)) for p in PAIRS]:
            keys = {'airspeed', 'density', 'altitude'}
        for k in ('airspeed', 'density', 'mach', 'altitude'):
            aero.pop(k, None)
            if k in keys:
                aero[k] = mk(k)
    elif kind == 'lengths':
        if n is None:
            n = 2
            aero = {k: (v if v is None else [v, v]) for k, v in aero.items()}
        k = draw(st.sampled_from(sorted(k for k in aero if aero[k] is not None)))
        aero[k] = aero[k][:-1] if (draw(st.booleans()) and n > 1) else aero[k] + [aero[k][0]]
    elif kind == 'scalar_in_batch':
        if n is None or n == 1:
            n = 2
            aero = {k: (v if v is None else [v[0], v[0]] if isinstance(v, list) else [v, v]) for k, v in aero.items()}
        k = draw(st.sampled_from(sorted(k for k in aero if aero[k] is not None)))
        aero[k] = aero[k][0]
    elif kind == 'angle':
        k = draw(st.sampled_from(['alpha', 'beta']))
        bad = draw(st.one_of(gen.num(90.1, 400, 0.1), gen.num(-400, -90.1, 0.1), st.sampled_from([90.0001, -90.0001])))
        if isinstance(aero[k], list):
            i = draw(st.integers(0, len(aero[k]) - 1))
            aero[k] = aero[k][:i] + [bad] + aero[k][i + 1:]
        else:
            aero[k] = bad
    elif kind == 'text':
        k = draw(st.sampled_from(sorted(k for k in aero if aero[k] is not None)))
        bad = draw(st.sampled_from(['fast', '', 'x12', {}, [[1.0, 2.0]]]))
        aero[k] = [bad]*n if n else bad
    elif kind == 'missing':
        k = draw(st.sampled_from(sorted(k for k in aero if aero[k] is not None)))
        if draw(st.booleans()) and k in ('airspeed', 'density', 'mach', 'altitude', 'alpha', 'beta'):
            aero[k] = None
        else:
            aero.pop(k)
    return dict(kind=kind, aero=aero)


def refuse(case, ctx):
    """Nothing is analysed for an invalid state file"""
    ctx.label(case['kind'])
    analysed = []
    try:
        settings, aircraft, state = load(ctx, case['aero'])
        for cur in state.iter_states():
            analysed.append(dict(cur.aero))
    except Exception as e:
        require(not analysed, f'refused only after {len(analysed)} states: {e!r}')
        return
    require(False, f"invalid state file ({case['kind']}) was accepted: analysed {analysed[:2]}")


SUBS = [
    Sub('resolve', valid(), resolve, 2500, 40000, 'at least one state with non-zero airspeed'),
    Sub('refuse', invalid(), refuse, 2500, 40000, 'every case is a distinct invalid file'),
]
