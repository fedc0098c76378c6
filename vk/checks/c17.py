"""Settings and flight states survive saving; settings files are honoured or refused."""
import copy
import json
import os
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c14
from vk.core import Sub, require

AC = copy.deepcopy(c14.AC)
AC['wings'][0]['segments'][0].pop('panels')
PRIMARY = ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')

DEFAULTS = dict(
    deformation=None, vlm_autopanels_c=4, vlm_autopanels_s=4,
    save_results={'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False},
    plot=dict(geometry=dict(opt=[], show=False, save=False), lattice=dict(opt=[], show=False, save=False),
              matrix_downwash=dict(opt=[], show=False, save=False), results=dict(opt=['cp'], show=False, save=False)),
    _do_normal_rotations=True, _epsilon=1e-6)


# ---------- states ----------

@st.composite
def state_cases(draw):
    return dict(aero=draw(c14.valid()), used=draw(st.booleans()), cycles=draw(st.integers(1, 3)))


def rows(state):
    return [dict(c.aero) for c in state.iter_states()]


def state_roundtrip(case, ctx):
    import pytornado.fileio as io
    d = sim.fresh_dir(ctx, 'st')
    f = sim.write_project(d, AC, case['aero'])
    s, _, state = sim.load_project(f)
    want = rows(copy.deepcopy(state))
    doc = c14.want_states(case['aero'])
    require(len(want) == len(doc), f'{len(want)} flight states read, the file lists {len(doc)}')
    for w, g in zip(want, doc):
        for k in ('alpha', 'beta') + c14.RATES:
            require(w[k] == g[k], f'{k} = {w[k]} read, the file says {g[k]}')
    if case['used']:
        rows(state)
    for k in range(case['cycles']):
        io.native.state.save(state, s)
        require(rows(copy.deepcopy(state)) == want, 'saving changed the flight states in use')
        sim.read_json(os.path.join(d, 'state', 'st.json'))
        state = io.native.state.load(s)
        got = rows(copy.deepcopy(state))
        require(got == want, f'reloaded flight states {got}, expected {want}')
    ctx.label('+'.join(k for k in ('airspeed', 'mach', 'density', 'altitude') if case['aero'].get(k) is not None))
    ctx.nontrivial(len(want) > 1 or case['aero'].get('altitude') is not None)


# ---------- settings ----------

@st.composite
def plot_entry(draw, opts):
    return dict(opt=draw(st.lists(st.sampled_from(opts), max_size=2, unique=True)) if opts else [], show=False,
                save=draw(st.integers(0, 3)) == 3)


@st.composite
def settings_dict(draw, plots=True):
    s = dict(aircraft='ac.json', state='st.json')
    if draw(st.booleans()):
        s['deformation'] = None
    for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
        if draw(st.booleans()):
            s[k] = draw(st.integers(1, 6))
    if draw(st.booleans()):
        s['save_results'] = {k: draw(st.booleans()) for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
    if draw(st.booleans()):
        s['plot'] = dict(geometry=draw(plot_entry([])), lattice=draw(plot_entry([])),
                         matrix_downwash=draw(plot_entry([])), results=draw(plot_entry(['cp', 'fz', 'gamma'])))
        if not plots:
            for v in s['plot'].values():
                v['save'] = False
    if draw(st.integers(0, 3)) == 0:
        s['_epsilon'] = draw(st.sampled_from([1e-3, 1e-6, 0.5, 1e-9]))
    if draw(st.integers(0, 3)) == 0:
        s['_do_normal_rotations'] = draw(st.booleans())
    keys = draw(st.permutations(sorted(s)))
    return {k: s[k] for k in keys}


@st.composite
def settings_cases(draw):
    steps = draw(st.lists(st.sampled_from(['save', 'load', 'run']), min_size=1, max_size=4))
    return dict(settings=draw(settings_dict(plots=False)), steps=steps, other=draw(settings_dict(plots=False)),
                name=draw(st.sampled_from(['run', 'My.run', 'a b', 'run-1', 'x_000'])),
                touch=draw(st.booleans()))


def expected(sd):
    out = copy.deepcopy(DEFAULTS)
    for k, v in sd.items():
        out[k] = copy.deepcopy(v)
    if not out['plot']['results']['opt']:
        out['plot']['results']['opt'] = ['cp']
    return out


def check_values(s, want, what):
    compare(s.settings, want, what)


def compare(got, want, what):
    for k, v in want.items():
        require(k in got, f'{what}: {k} is missing')
        if isinstance(v, dict):
            require(isinstance(got[k], dict), f'{what}: {k} is {got[k]!r}')
            compare(got[k], v, f'{what}: {k}')
        else:
            require(got[k] == v and type(got[k]) is type(v), f'{what}: {k} is {got[k]!r}, expected {v!r}')


def settings_roundtrip(case, ctx):
    """A sequence of load, analysis and save on one project; another settings object lives next to it"""
    import pytornado.fileio as io
    import pytornado.stdfun.run as run
    d = sim.fresh_dir(ctx, 'se')
    f = sim.write_project(d, AC, sim.AERO0, case['settings'], name=case['name'])
    f2 = sim.write_project(d, AC, sim.AERO0, case['other'], name='other')
    want, want2 = expected(case['settings']), expected(case['other'])
    s = run.get_settings(f)
    s2 = run.get_settings(f2)
    check_values(s, want, 'settings as loaded')
    if case['touch']:
        # a script that changes its settings object must not change the defaults of others
        for k in ('geometry', 'lattice', 'matrix_downwash'):
            s.settings['plot'][k]['opt'].append('something')
        s.settings['save_results']['global'] = True
        check_values(run.get_settings(f2), want2, 'settings loaded after another object was changed')
        check_values(run.get_settings(f), want, 'settings loaded again after the object was changed')
        s = run.get_settings(f)
    saved = False
    for step in case['steps']:
        if step == 'load':
            s = run.get_settings(f)
            if saved:
                # hidden settings are not written out
                for k in ('_epsilon', '_do_normal_rotations'):
                    want[k] = DEFAULTS[k]
            check_values(s, want, 'settings loaded after ' + ' '.join(case['steps']))
        elif step == 'run':
            before = copy.deepcopy(s.settings)
            import pytornado.aero.vlm as vlm
            import pytornado.plot.makeplots as makeplots
            from pytornado.objects.vlm_struct import VLMData
            ac, state = io.native.aircraft.load(s), io.native.state.load(s)
            cur, lat, data = sim.first(sim.stages(s, ac, state))
            s.paths('d_results', make_dirs=True, is_dir=True)
            io.native.results.save_all(s, ac, cur, data)
            makeplots.make_all(s, ac, cur, data, lat)
            compare(s.settings, {k: before[k] for k in want}, 'settings after an analysis')
        else:
            io.native.settings.save(s)
            saved = True
            check_values(s, want, 'settings in use after saving')
            disk = sim.read_json(f)
            require(isinstance(disk, dict), f'saved settings: {disk!r}')
            for k, v in disk.items():
                require(k in want and want[k] == v, f'saved settings: {k} is {v!r}')
            for k in want:
                require(k.startswith('_') or k in disk, f'saved settings lack {k}')
    check_values(s2, want2, 'the other settings object')
    s3 = run.get_settings(f2)
    check_values(s3, want2, 'the other settings file')
    ctx.label(*case['steps'])
    ctx.nontrivial('save' in case['steps'] or case['touch'])


# ---------- refused ----------

@st.composite
def bad_settings(draw):
    s = draw(settings_dict(plots=False))
    kind = draw(st.sampled_from(['aircraft', 'state', 'autopanels', 'save', 'plot', 'epsilon', 'section', 'no file', 'hidden']))
    if kind == 'aircraft':
        v = draw(st.sampled_from([None, 3, ['ac.json'], 'ac', 'ac.txt', 'ac.yaml', 'json', '']))
        if v is None and draw(st.booleans()):
            s.pop('aircraft')
        else:
            s['aircraft'] = v
    elif kind == 'state':
        v = draw(st.sampled_from([None, 3, ['st.json'], '__CPACS', '__cpacs']))
        if v is None and draw(st.booleans()):
            s.pop('state')
        else:
            s['state'] = v
    elif kind == 'autopanels':
        s[draw(st.sampled_from(['vlm_autopanels_c', 'vlm_autopanels_s']))] = draw(st.sampled_from(['4', 4.0, 2.5, None, [4], {}]))
    elif kind == 'save':
        s['save_results'] = copy.deepcopy(DEFAULTS['save_results'])
        s['save_results'][draw(st.sampled_from(sorted(s['save_results'])))] = draw(st.sampled_from(['yes', 'true', 1, 0, None, [], 'false']))
    elif kind == 'plot':
        s['plot'] = copy.deepcopy(DEFAULTS['plot'])
        p = s['plot'][draw(st.sampled_from(sorted(s['plot'])))]
        k = draw(st.sampled_from(['show', 'save', 'opt']))
        p[k] = draw(st.sampled_from(['cp', {'cp': 1}, 7])) if k == 'opt' else draw(st.sampled_from(['yes', 'false', 1, None, []]))
    elif kind == 'epsilon':
        s['_epsilon'] = draw(st.sampled_from([0.0, 1.0, -1e-6, 2.5, 1, '1e-6', None, float('nan'), float('inf')]))
    elif kind == 'section':
        k = draw(st.sampled_from(['save_results', 'plot']))
        s[k] = draw(st.sampled_from([None, [], True, 'all', 1]))
    elif kind == 'no file':
        k = draw(st.sampled_from(['aircraft', 'state', 'deformation']))
        s[k] = 'missing.json'
    elif kind == 'hidden':
        s['_do_normal_rotations'] = draw(st.sampled_from(['no', 0, 1, None, []]))
    return dict(kind=kind, settings=s)


def refuse(case, ctx):
    d = sim.fresh_dir(ctx, 'bad')
    f = sim.write_project(d, AC, sim.AERO0, case['settings'] if case['kind'] not in ('aircraft', 'state') else sim.make_settings())
    if case['kind'] in ('aircraft', 'state'):
        sim.write_json(f, case['settings'])
    sim.write_json(os.path.join(d, 'aircraft', 'ac.json'), AC)
    sim.write_json(os.path.join(d, 'state', 'st.json'), dict(aero=sim.AERO0))
    ctx.label(case['kind'])
    if case['kind'] == 'no file':
        for sub in ('aircraft', 'state', 'deformation'):
            if os.path.exists(os.path.join(d, sub, 'missing.json')):
                os.remove(os.path.join(d, sub, 'missing.json'))
    try:
        sim.standard_run(f)
    except Exception:
        left = []
        for root, _, files in os.walk(os.path.join(d, '_results')):
            left += files
        require(not left, f'refused, but left result files {left}')
        return
    except SystemExit as e:
        require(e.code not in (0, None), 'stopped with exit status 0')
        return
    require(False, f"invalid settings ({case['kind']}) were accepted: {case['settings']}")


SUBS = [
    Sub('state_roundtrip', state_cases(), state_roundtrip, 1500, 30000, 'several states or altitude given'),
    Sub('settings_roundtrip', settings_cases(), settings_roundtrip, 900, 20000, 'a save, or a settings object changed by a script'),
    Sub('refuse', bad_settings(), refuse, 900, 15000, 'every case is an invalid settings file'),
]
