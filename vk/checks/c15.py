"""A batch of flight states gives exactly what the single analyses give, in order, independent of its neighbours."""
import copy
import os
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c14, c19
from vk.core import Sub, Skip, require, close

RATES = ('rate_P', 'rate_Q', 'rate_R')
KEYS = dict(zip('xyzDCLlmn', ('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz')))
COEF = dict(zip('xyzDCLlmn', ('Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn')))


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(controls=2, max_c=3, max_s=3, max_segs=2, panels='mixed'))
    n = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 12]))
    states = []
    for i in range(n):
        a = draw(gen.aero(speed0=True))
        if draw(st.integers(0, 3)) == 0:
            # a state in which some loads vanish
            a.update(draw(st.sampled_from([dict(airspeed=0.0), dict(density=0.0), dict(alpha=0.0, beta=0.0)])),
                     rate_P=0.0, rate_Q=0.0, rate_R=0.0)
        if i and draw(st.integers(0, 3)) == 0:
            a = dict(states[draw(st.integers(0, i - 1))])
        states.append(a)
    use = draw(st.sampled_from(['airspeed+density', 'airspeed+altitude', 'mach+altitude']))
    for a in states:
        if 'altitude' in use:
            a.pop('density', None)
            a.setdefault('altitude', draw(gen.num(0, 20000, 1)))
        if 'mach' in use:
            a.pop('airspeed', None)
            a.setdefault('mach', draw(gen.num(0.05, 0.8, 0.01)))
    f = None
    if draw(st.integers(0, 2)) == 0:
        f = {}
        for w in ac['wings']:
            if draw(st.booleans()):
                f[w['uid']] = draw(c19.field(w, False))
            if w['symmetry'] and draw(st.booleans()):
                f[w['uid'] + '_m'] = draw(c19.field(w, True))
    return dict(aircraft=ac, states=states, field=f, auto=[draw(st.integers(1, 4)), draw(st.integers(1, 4))])


def summary(res):
    d = res['vlmdata']
    return dict(gamma=np.array(d.panelwise['gamma'], float), p=np.array(res['lattice'].p), n=np.array(res['lattice'].n),
                rhs=np.array(d.array_rhs), forces=dict(d.forces), coeffs=dict(d.coeffs),
                fx=np.array(d.panelwise['fx']), cp=np.array(d.panelwise['cp']))


def batch(case, ctx):
    ac, states = case['aircraft'], case['states']
    st_kw = sim.make_settings(vlm_autopanels_c=case['auto'][0], vlm_autopanels_s=case['auto'][1],
                              save_results={'global': True, 'aeroperformance': True})
    aero = {k: [a[k] for a in states] for k in states[0]}
    d = sim.fresh_dir(ctx, 'batch')
    f = sim.write_project(d, ac, aero, st_kw, deformation=case['field'], name='b')
    rb = sim.standard_run(f)
    res = rb['state'].results
    require(all(len(res[k]) == len(states) for k in res), f'number of results {[len(res[k]) for k in res]}')
    apm = sim.read_json(os.path.join(d, '_results', 'b_aeroperformance.json'))
    last = summary(rb)
    for i, a in enumerate(states):
        d1 = sim.fresh_dir(ctx, 'single')
        f1 = sim.write_project(d1, ac, a, st_kw, deformation=case['field'], name='b')
        rs = sim.standard_run(f1)
        one = summary(rs)
        if not np.all(np.isfinite(one['gamma'])):
            raise Skip('singular system')
        for names, src, in ((KEYS, one['forces']), (COEF, one['coeffs'])):
            sc = max(abs(src[k]) for k in names)
            for k, nm in names.items():
                close(res[nm][i], src[k], f'state {i} of the batch: {nm}', rtol=1e-9, atol=1e-10*sc + 1e-300)
                close(apm[nm][i], src[k], f'state {i}, aeroperformance file: {nm}', rtol=1e-9, atol=1e-10*sc + 1e-300)
        gb = sim.read_json(os.path.join(d, '_results', f'b_{i:03d}', 'global.json'))
        gs = sim.read_json(os.path.join(d1, '_results', 'b_000', 'global.json'))
        for sec in ('aero', 'global_forces', 'global_coeffs'):
            require(set(gb[sec]) == set(gs[sec]), f'{sec} of state {i}')
            sc = max([abs(x) for x in gs[sec].values()] + [1e-300]) if sec != 'aero' else 0
            for k in gs[sec]:
                close(gb[sec][k], gs[sec][k], f'state {i}, global result file: {sec} {k}', rtol=1e-9, atol=1e-10*sc)
        if i == len(states) - 1:
            for k in ('p', 'n', 'rhs', 'gamma', 'fx', 'cp'):
                if k == 'cp' and np.array_equal(last[k], one[k], equal_nan=True):
                    # undefined without dynamic pressure
                    continue
                sc = np.abs(one[k]).max()
                close(last[k], one[k], f'last state of the batch: {k}', rtol=1e-9, atol=1e-10*sc)
    if case['field']:
        ctx.label('deformed')
    gen.describe(ac, ctx)
    ctx.label(f'{len(states)} states')
    ctx.nontrivial(len(states) > 1)


@st.composite
def long_cases(draw):
    ac = draw(gen.aircraft(max_wings=1, max_segs=1, controls=1, max_c=1, max_s=1))
    n = draw(st.sampled_from([101, 137, 260, 1003]))
    some = [draw(gen.aero()) for _ in range(draw(st.integers(2, 6)))]
    # few different states: which of them is in which place follows from a multiplier
    mul = draw(st.sampled_from([1, 3, 7, 11, 13]))
    return dict(aircraft=ac, n=n, some=some, mul=mul, look=[draw(st.integers(0, n - 1)) for _ in range(6)])


def long_batch(case, ctx):
    ac, some, n = case['aircraft'], case['some'], case['n']
    which = [(i*case['mul'] + i//len(some)) % len(some) for i in range(n)]
    set_kw = sim.make_settings(save_results={'global': True, 'aeroperformance': True})
    d = sim.fresh_dir(ctx, 'batch')
    aero = {k: [some[j][k] for j in which] for k in some[0]}
    rb = sim.standard_run(sim.write_project(d, ac, aero, set_kw, name='b'))
    res = rb['state'].results
    apm = sim.read_json(os.path.join(d, '_results', 'b_aeroperformance.json'))
    singles = []
    for a in some:
        d1 = sim.fresh_dir(ctx, 'single')
        one = summary(sim.standard_run(sim.write_project(d1, ac, a, set_kw, name='b')))
        if not np.all(np.isfinite(one['gamma'])):
            raise Skip('singular system')
        singles.append(one)
    for names, sec in ((KEYS, 'forces'), (COEF, 'coeffs')):
        sc = max(abs(o[sec][k]) for o in singles for k in names)
        for k, nm in names.items():
            want = [singles[j][sec][k] for j in which]
            close(np.array(res[nm], float), want, f'{n} states: {nm}', rtol=1e-9, atol=1e-10*sc + 1e-300)
            close(np.array(apm[nm], float), want, f'{n} states, aeroperformance file: {nm}', rtol=1e-9, atol=1e-10*sc + 1e-300)
    for k in some[0]:
        close(np.array(apm[k], float), aero[k], f'{n} states, aeroperformance file: {k}', rtol=1e-12)
    for i in sorted({0, 99, 100, n - 1, *case['look']}):
        g = sim.read_json(os.path.join(d, '_results', f'b_{i:03d}', 'global.json'))
        for k in some[0]:
            close(g['aero'][k], aero[k][i], f'state {i} of {n}, global result file: {k}', rtol=1e-12)
        sc = max(abs(x) for x in singles[which[i]]['forces'].values())
        for k, x in singles[which[i]]['forces'].items():
            close(g['global_forces'][k], x, f'state {i} of {n}, global result file: force {k}', rtol=1e-9, atol=1e-10*sc)
    ctx.label(f'{n} states')
    ctx.nontrivial(len({str(a) for a in some}) > 1)


SUBS = [Sub('batch', cases(), batch, 500, 10000, 'more than one flight state'),
        Sub('long', long_cases(), long_batch, 24, 240, 'at least two different flight states')]
