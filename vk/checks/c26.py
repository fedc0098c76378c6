"""The compiled kernels stay inside their arrays, leave inputs alone, repeat exactly and keep nothing."""
# built with AddressSanitizer and UBSan: an access outside an array ends the worker, which is a violation
SANITIZE = True
import copy
import gc
import sys
import tracemalloc
import weakref
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.core import Sub, Skip, require

LAT = ('p', 'v', 'c', 'n', 'a', 'bound_leg_midpoints')
PW = ('vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')


@st.composite
def project(draw):
    if draw(st.integers(0, 63)) == 63:
        return draw(gen.large(hi=800, max_wings=1, controls=1, simple_airfoil=True))
    big = draw(st.integers(0, 3)) == 0
    ac = draw(gen.aircraft(controls=2, max_c=9 if big else 3, max_s=12 if big else 3, max_wings=3 if big else 2,
                           max_segs=3, simple_airfoil=True, panels=draw(st.sampled_from(['explicit', 'mixed']))))
    return ac


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    acs = [draw(project()) for _ in range(n)]
    states = [draw(gen.aero(speed0=True)) for _ in range(draw(st.integers(1, 3)))]
    ops = draw(st.lists(st.tuples(st.sampled_from(['lattice', 'downwash', 'boundary', 'solve', 'results', 'all', 'kernels']),
                                  st.integers(0, n - 1), st.integers(0, len(states) - 1), st.integers(0, 1)).map(list),
                        min_size=1, max_size=10))
    return dict(aircraft=acs, states=states, ops=ops, auto=[draw(st.integers(1, 6)), draw(st.integers(1, 9))])


def lat_values(lat):
    d = {k: np.array(getattr(lat, k)) for k in LAT}
    d['info'] = {k: float(v) for k, v in lat.info.items()}
    return d


def state_values(cur, ac):
    return {**{k: np.array(v) for k, v in cur.aero.items()}, **{'refs ' + k: copy.deepcopy(v) for k, v in ac.refs.items()}}


def eq(a, b, what):
    require(sorted(a) == sorted(b), f'{what}: other entries: {sorted(a)} and {sorted(b)}')
    for k in a:
        if isinstance(a[k], dict):
            eq(a[k], b[k], f'{what} {k}')
        elif a[k] is None or isinstance(a[k], str):
            require(a[k] == b[k], f'{what}: {k} is {b[k]}, was {a[k]}')
        else:
            x, y = np.asarray(a[k], float), np.asarray(b[k], float)
            require(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), f'{what}: {k} changed')


def result_values(data):
    return {**{k: np.array(data.panelwise[k]) for k in PW}, 'forces': dict(data.forces), 'coeffs': dict(data.coeffs)}


def load(ctx, ac, aero, auto, name):
    import pytornado.aero.vlm as vlm
    d = sim.fresh_dir(ctx, name)
    f = sim.write_project(d, ac, aero, sim.make_settings(vlm_autopanels_c=auto[0], vlm_autopanels_s=auto[1]))
    s, a, stt = sim.load_project(f)
    vlm.set_autopanels(a, s)
    cur = list(stt.iter_states())[0]
    cur.refs = a.refs
    return s, a, cur


def sequences(case, ctx):
    """Stages in any order on reused objects against the same stage on objects of its own"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    n, m = len(case['aircraft']), len(case['states'])
    objs = {(i, j): load(ctx, ac, aero, case['auto'], f'p{i}{j}')
            for i, ac in enumerate(case['aircraft']) for j, aero in enumerate(case['states'])}
    fresh, lats = {}, {}

    def lattice(i, j):
        s, a, cur = objs[(i, j)]
        return vlm.gen_lattice(a, cur, s, (i, j) not in lats)

    def want(i, j):
        """All results of aircraft i in state j, computed once with new objects"""
        if (i, j) not in fresh:
            lat = lattice(i, j)
            lats[(i, j)] = lat
            data = VLMData()
            cur = objs[(i, j)][2]
            w = dict(lat=lat_values(lat))
            vlm.calc_downwash(lat, data)
            w['dw'] = np.array(data.matrix_downwash)
            vlm.calc_boundary(lat, cur, data)
            w['rhs'] = np.array(data.array_rhs)
            vlm.solver(data)
            w['gamma'] = np.array(data.panelwise['gamma'])
            vlm.calc_results(lat, cur, data)
            w['res'] = result_values(data)
            fresh[(i, j)] = w
        return fresh[(i, j)]

    datas = [VLMData(), VLMData()]          # shared by all aircraft and states
    holds = [dict(), dict()]                # what each of them was given last
    used = dict(dw={}, rhs={})
    sizes, did = set(), set()
    for k, (op, i, j, d) in enumerate(case['ops']):
        w = want(i, j)
        if not np.all(np.isfinite(w['gamma'])):
            raise Skip('singular system')
        lat, data, (s, a, cur), h = lats[(i, j)], datas[d], objs[(i, j)], holds[d]
        sizes.add(len(lat.p))
        what = f'step {k}: {op} of aircraft {i} in state {j}'
        st0 = state_values(cur, a)
        if op in ('lattice', 'all'):
            again = lattice(i, j)
            eq(w['lat'], lat_values(again), what + ': repeated')
            require(again is not lat and not np.shares_memory(again.p, lat.p), what + ': two lattices share memory')
        if op in ('downwash', 'solve', 'results', 'all'):
            vlm.calc_downwash(lat, data)
            h['dw'] = (i, j)
            eq(dict(dw=w['dw']), dict(dw=data.matrix_downwash), what + ': downwash')
        if op in ('boundary', 'solve', 'results', 'all'):
            vlm.calc_boundary(lat, cur, data)
            eq(dict(rhs=w['rhs']), dict(rhs=data.array_rhs), what + ': boundary condition')
        if op in ('solve', 'results', 'all'):
            vlm.solver(data)
            h.pop('res', None)
            eq(dict(gamma=w['gamma']), dict(gamma=data.panelwise['gamma']), what + ': solution')
            eq(dict(dw=w['dw'], rhs=w['rhs']), dict(dw=data.matrix_downwash, rhs=data.array_rhs), what + ': solver input')
        if op in ('results', 'all'):
            vlm.calc_results(lat, cur, data)
            eq(w['res'], result_values(data), what + ': results')
            h['res'] = (i, j)
            eq(dict(dw=w['dw'], rhs=w['rhs'], gamma=w['gamma']),
               dict(dw=data.matrix_downwash, rhs=data.array_rhs, gamma=data.panelwise['gamma']), what + ': input of the results')
            vlm.calc_results(lat, cur, data)
            eq(w['res'], result_values(data), what + ': results, second call')
        if op == 'kernels':
            # straight into arrays that were used before
            from pytornado.aero import c_vlm
            for again in range(2):
                c_vlm.py2c_downwash(lat, used['dw'].setdefault(len(lat.p), np.full((len(lat.p),)*2, 7.0)))
                c_vlm.py2c_boundary(lat, cur, used['rhs'].setdefault(len(lat.p), np.full(len(lat.p), 7.0)))
                eq({q: w[q] for q in used}, {q: used[q][len(lat.p)] for q in used}, what + ': into arrays used before')
            if h.get('res') == (i, j):
                c_vlm.py2c_results(lat, cur, data)
                eq(w['res'], result_values(data), what + ': results into arrays used before')
        eq(w['lat'], lat_values(lat), what + ': lattice after the call')
        eq(st0, state_values(cur, a), what + ': state and references after the call')
        did.add(op)
    ctx.label(*did)
    if len(sizes) > 1:
        ctx.label('lattices of several sizes')
    if max(sizes) > 100:
        ctx.label('more than 100 panels')
    if min(sizes) == 1:
        ctx.label('one panel')
    ctx.nontrivial(len(case['ops']) > 1)


@st.composite
def memory_cases(draw):
    return dict(aircraft=draw(gen.aircraft(controls=1, max_c=3, max_s=3, max_segs=2, simple_airfoil=True)),
                aero=draw(gen.aero()), deform=False)


def memory(case, ctx):
    """However many analyses are made, nothing of the earlier ones is kept"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    s, a, cur = load(ctx, case['aircraft'], case['aero'], [2, 2], 'p')
    refs, held = [], []
    new = [True]

    def once():
        mine = copy.copy(cur)
        mine.aero, mine.refs = dict(cur.aero), dict(cur.refs)
        lat = vlm.gen_lattice(a, mine, s, new[0])
        new[0] = False
        data = VLMData()
        vlm.calc_downwash(lat, data)
        vlm.calc_boundary(lat, mine, data)
        vlm.solver(data)
        vlm.calc_results(lat, mine, data)
        for nm, o in (('flight state', mine), ('lattice', lat), ('results', data)):
            refs.append((nm, weakref.ref(o)))
        # containers do not support weak references: nobody but their owner (and this list) may hold them afterwards
        for nm, o in (('flight state values', mine.aero), ('reference values', mine.refs), ('lattice info', lat.info),
                      ('forces', data.forces), ('coeffs', data.coeffs), ('panelwise', data.panelwise)):
            held.append((nm, o))
        for k in LAT:
            refs.append((f'lattice.{k}', weakref.ref(getattr(lat, k))))
        for k in PW + ('gamma',):
            refs.append((f'panelwise {k}', weakref.ref(data.panelwise[k])))
        refs.append(('downwash', weakref.ref(data.matrix_downwash)))
        refs.append(('rhs', weakref.ref(data.array_rhs)))
        return len(lat.p)

    np_ = once()
    gc.collect()
    while held:
        nm, o = held.pop()
        # this variable and the argument of the call
        n = sys.getrefcount(o) - 2
        require(n <= 0, f'{nm}: {n} references are left after everything was released')
    o = None
    gc.collect()
    alive = [n for n, r in refs if r() is not None]
    require(not alive, f'still in memory after everything was released: {alive}')
    for _ in range(2):
        once()
    refs.clear()
    held.clear()
    gc.collect()
    tracemalloc.start()
    try:
        once()
        refs.clear()
        held.clear()
        gc.collect()
        m0 = tracemalloc.get_traced_memory()[0]
        rounds = 12
        for _ in range(rounds):
            once()
            refs.clear()
            held.clear()
        gc.collect()
        grow = (tracemalloc.get_traced_memory()[0] - m0)/rounds
    finally:
        tracemalloc.stop()
    # the interpreter itself caches attribute names (bounded, at most some 2 kB per analysis)
    require(grow < 4000, f'{grow:.0f} bytes more in memory with every analysis')
    ctx.label(f'{np_} panels' if np_ < 3 else 'more panels')


SUBS = [Sub('sequences', cases(), sequences, 700, 12000, 'at least two steps'),
        Sub('memory', memory_cases(), memory, 150, 1500, 'an analysis was repeated')]
