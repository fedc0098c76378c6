"""Result files say what was computed, and exist exactly when they are requested."""
import json
import os
import re
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.core import Sub, Skip, require, close

COLS = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')
KEYS = dict(zip('xyzDCLlmn', ('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz')))
COEF = dict(zip('xyzDCLlmn', ('Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn')))
OPTS = ('global', 'panelwise', 'aeroperformance', 'matrix_system')


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(big=True, controls=1, max_c=3, max_s=3, max_segs=2))
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 3, 12]))
    a = [draw(gen.aero(speed0=True)) for _ in range(n)]
    use = draw(st.sampled_from(['airspeed+density', 'airspeed+altitude', 'mach+altitude']))
    for x in a:
        if 'altitude' in use:
            x.pop('density')
            x['altitude'] = draw(gen.num(0, 20000, 1))
        if 'mach' in use:
            x.pop('airspeed')
            x['mach'] = draw(gen.num(0.05, 0.8, 0.01))
    aero = {k: [x[k] for x in a] for k in a[0]} if (n > 1 or draw(st.booleans())) else a[0]
    return dict(aircraft=ac, aero=aero, save={k: draw(st.booleans()) for k in OPTS},
                name=draw(st.sampled_from(['run', 'a.b', 'x y', '_results', 'template', 'R-2', 'run_000'])),
                stale=draw(st.integers(0, 4)) == 0)


@st.composite
def large_cases(draw):
    ac = draw(gen.large(controls=1))
    save = {k: draw(st.booleans()) for k in OPTS}
    save['panelwise'] = True
    return dict(aircraft=ac, aero=draw(gen.aero()), save=save, name='run', stale=False)


def tree(d):
    out = set()
    for root, _, files in os.walk(d):
        for f in files:
            out.add(os.path.relpath(os.path.join(root, f), d))
    return out


def table(path, ncol):
    rows, head = [], []
    with open(path) as fp:
        for line in fp:
            if line.startswith('#'):
                head.append(line)
                continue
            rows.append([float(x) for x in line.split(',')])
    require(all(len(r) == ncol for r in rows), f'{os.path.basename(path)}: columns {[len(r) for r in rows]}, expected {ncol}')
    return np.array(rows, dtype=float).reshape(len(rows), ncol), ''.join(head)


def same(got, want, what, rtol, atol=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape == want.shape:
        # without dynamic pressure there are no coefficients
        require(np.array_equal(np.isfinite(got), np.isfinite(want)), f'{what}: a number where there is none, or the other way round')
        got, want = np.where(np.isfinite(got), got, 0.0), np.where(np.isfinite(want), want, 0.0)
    close(got, want, what, rtol=rtol, atol=atol)


def printed(got, want, what):
    """equal up to six decimals of the mantissa"""
    # below the range of doubles that print the same way nothing can be said
    same(got, want, what, rtol=6e-7, atol=1e-300)


def files(case, ctx):
    ac, aero, save, name = case['aircraft'], case['aero'], case['save'], case['name']
    d = sim.fresh_dir(ctx, 'res')
    f = sim.write_project(d, ac, aero, sim.make_settings(save_results=save), name=name)
    s, a, state = sim.load_project(f)
    want = []
    aero_rows = []
    from pytornado.aero import c_vlm
    for cur, lat, data in sim.stages(s, a, state):
        if not np.all(np.isfinite(data.panelwise['gamma'])):
            raise Skip('singular system')
        # the system of equations itself, not what is left of it when it has been solved
        rhs, mat = np.zeros(len(lat.n)), np.zeros((len(lat.n),)*2)
        c_vlm.py2c_boundary(lat, cur, rhs)
        c_vlm.py2c_downwash(lat, mat)
        want.append(dict(pw={k: np.array(data.panelwise[k], float) for k in COLS}, A=mat, b=rhs,
                         forces=dict(data.forces), coeffs=dict(data.coeffs)))
        aero_rows.append(dict(cur.aero))
    if case['stale']:
        # an earlier analysis of the same project left other files behind
        r = sim.make_settings(save_results={k: True for k in OPTS})
        f0 = sim.write_project(d, ac, dict(sim.AERO0, airspeed=33.0), r, name='earlier')
        sim.standard_run(f0)
        sim.write_project(d, ac, aero, sim.make_settings(save_results=save), name=name)
    before = tree(os.path.join(d, '_results'))
    inputs = {p: open(os.path.join(d, p)).read() for p in ('aircraft/ac.json', 'state/st.json', f'settings/{name}.json')}
    sim.standard_run(f)
    for p, text in inputs.items():
        require(open(os.path.join(d, p)).read() == text, f'the analysis changed its input file {p}')

    new = tree(os.path.join(d, '_results')) - before
    exp = set()
    for i in range(len(want)):
        sub = f'{name}_{i:03d}'
        exp |= {os.path.join(sub, fn) for o, fn in (('global', 'global.json'), ('panelwise', 'panelwise.dat'),
                                                    ('matrix_system', 'matrix.dat')) if save[o]}
    if save['aeroperformance']:
        exp.add(f'{name}_aeroperformance.json')
    require(new == exp, f'result files {sorted(new)}, requested {sorted(exp)}')
    plots = tree(os.path.join(d, '_plots'))
    require(not plots, f'plots {plots} were not requested')

    R = os.path.join(d, '_results')
    for i, w in enumerate(want):
        sub = os.path.join(R, f'{name}_{i:03d}')
        if save['global']:
            g = sim.read_json(os.path.join(sub, 'global.json'))
            require(set(g) == {'aero', 'refs', 'global_forces', 'global_coeffs'}, f'sections {sorted(g)}')
            require(set(g['global_forces']) == set(w['forces']) == set(KEYS), f"forces {sorted(g['global_forces'])}")
            require(set(g['global_coeffs']) == set(w['coeffs']) == set(COEF), f"coefficients {sorted(g['global_coeffs'])}")
            for k in KEYS:
                close(g['global_forces'][k], w['forces'][k], f'global.json of state {i}: force {k}', rtol=1e-12)
                same(g["global_coeffs"][k], w["coeffs"][k], f'global.json of state {i}: coefficient {k}', rtol=1e-12)
            for k, v in aero_rows[i].items():
                close(g['aero'][k], v, f'global.json of state {i}: {k}', rtol=1e-12)
            for k in ('area', 'span', 'chord', 'gcenter', 'rcenter'):
                close(g['refs'][k], ac['refs'][k], f'global.json of state {i}: {k}', rtol=1e-12)
        if save['panelwise']:
            t, head = table(os.path.join(sub, 'panelwise.dat'), len(COLS))
            names = re.findall(r'(\w+) \[', head)
            require(tuple(names) == COLS, f'panelwise.dat: header names {names}')
            require(len(t) == len(w['b']), f"panelwise.dat: {len(t)} rows for {len(w['b'])} panels")
            for c, k in enumerate(COLS):
                printed(t[:, c], w['pw'][k], f'panelwise.dat of state {i}: {k}')
            close(np.sqrt(t[:, 1]**2 + t[:, 2]**2 + t[:, 3]**2), t[:, 4], 'panelwise.dat: vmag', rtol=1e-5, atol=1e-12*abs(t[:, 4]).max())
            close(np.sqrt(t[:, 5]**2 + t[:, 6]**2 + t[:, 7]**2), t[:, 8], 'panelwise.dat: fmag', rtol=1e-5, atol=1e-12*abs(t[:, 8]).max())
        if save['matrix_system']:
            n = len(w['b'])
            t, head = table(os.path.join(sub, 'matrix.dat'), n + 1)
            require(len(t) == n, f'matrix.dat: {len(t)} rows for {n} panels')
            printed(t[:, :n], w['A'], f'matrix.dat of state {i}: influence matrix')
            printed(t[:, n], w['b'], f'matrix.dat of state {i}: right-hand side')
    if save['aeroperformance']:
        g = sim.read_json(os.path.join(R, f'{name}_aeroperformance.json'))
        for src, names in (('forces', KEYS), ('coeffs', COEF)):
            for k, nm in names.items():
                require(len(g[nm]) == len(want), f'aeroperformance file: {nm} has {len(g[nm])} entries for {len(want)} states')
                for i, w in enumerate(want):
                    same(g[nm][i], w[src][k], f'aeroperformance file: {nm}, state {i}', rtol=1e-12)
        for k in aero_rows[0]:
            close(np.array(g[k], float), np.array([r[k] for r in aero_rows]), f'aeroperformance file: {k}', rtol=1e-12)
    for o in OPTS:
        if save[o]:
            ctx.label(o)
    ctx.label(f'{len(want)} states')
    ctx.nontrivial(any(save.values()))


SUBS = [Sub('files', cases(), files, 700, 15000, 'at least one kind of result file requested'),
        Sub('large', large_cases(), files, 32, 240, 'every case')]
