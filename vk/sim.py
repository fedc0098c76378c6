"""
Drives the code under test the way its users do: writes a project directory
(aircraft/, state/, settings/, ... JSON files) and runs the standard analysis,
or the individual public stages of it.
"""
import copy
import json
import logging
import os
import shutil
import sys
import contextlib

import numpy as np

from vk.core import Violation

_n = [0]

AERO0 = dict(airspeed=100.0, density=1.225, alpha=2.0, beta=0.0, rate_P=0.0, rate_Q=0.0, rate_R=0.0)


def fresh_dir(ctx, name='p'):
    """A new empty directory inside the worker's scratch directory"""
    _n[0] += 1
    d = os.path.join(ctx.workdir, 'cases', f'{name}')
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fp:
        json.dump(obj, fp)


def read_json(path):
    with open(path) as fp:
        return json.load(fp)


SETTINGS0 = dict(
    aircraft='ac.json',
    state='st.json',
    deformation=None,
    vlm_autopanels_c=3,
    vlm_autopanels_s=3,
    save_results={'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False},
    plot={k: {'opt': [], 'show': False, 'save': False} for k in ('geometry', 'lattice', 'matrix_downwash', 'results')},
)


def make_settings(**kw):
    s = copy.deepcopy(SETTINGS0)
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(s.get(k), dict):
            s[k].update(v)
        else:
            s[k] = v
    return s


def write_project(root, aircraft, aero=None, settings=None, deformation=None, airfoils=None, name='run'):
    """Write the input files; returns the settings file path"""
    settings = copy.deepcopy(settings) if settings is not None else make_settings()
    if deformation is not None:
        settings['deformation'] = 'def.json'
        write_json(os.path.join(root, 'deformation', 'def.json'), deformation)
    write_json(os.path.join(root, 'aircraft', settings['aircraft']), aircraft)
    write_json(os.path.join(root, 'state', settings['state']), {'aero': aero if aero is not None else AERO0})
    if airfoils:
        for fn, text in airfoils.items():
            os.makedirs(os.path.join(root, 'airfoils'), exist_ok=True)
            with open(os.path.join(root, 'airfoils', fn), 'w') as fp:
                fp.write(text)
    p = os.path.join(root, 'settings', name + '.json')
    write_json(p, settings)
    return p


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        try:
            h.close()
        except Exception:
            pass
    # a handler must exist, otherwise the run installs its own console/file handlers
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.ERROR)


reset_logging()


def standard_run(settings_file):
    import pytornado.stdfun.run as run
    return run.standard_run(run.StdRunArgs(run=str(settings_file), quiet=True))


class Stage:
    """Result of running the public stages for one flight state"""
    pass


def load_project(settings_file):
    """settings, aircraft, state objects as the standard run loads them"""
    import pytornado.fileio as io
    import pytornado.stdfun.run as run
    settings = run.get_settings(str(settings_file))
    aircraft = io.native.aircraft.load(settings)
    state = io.native.state.load(settings)
    if settings.settings['deformation']:
        io.native.deformation.load(aircraft, settings)
    return settings, aircraft, state


def stages(settings, aircraft, state, upto='results'):
    """Generator over flight states: (cur_state, lattice, vlmdata) after the given stage"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    vlm.set_autopanels(aircraft, settings)
    for i, cur in enumerate(state.iter_states()):
        cur.refs = aircraft.refs
        data = VLMData()
        lat = vlm.gen_lattice(aircraft, cur, settings, make_new_subareas=(i == 0))
        if upto != 'lattice':
            vlm.calc_downwash(lat, data)
            vlm.calc_boundary(lat, cur, data)
            if upto != 'boundary':
                vlm.solver(data)
                vlm.calc_results(lat, cur, data)
        yield cur, lat, data


def first(flight_states):
    """The first flight state; a project without any is wrong (all projects here define at least one)"""
    for item in flight_states:
        return item
    raise Violation('no flight state to compute, but the state file defines at least one')


def size_label(ctx, lat):
    n = len(lat.p)
    ctx.label(next((f'up to {k} panels' for k in (10, 100, 300, 600, 1000) if n <= k), 'more than 1000 panels'))


def run_case(ctx, aircraft, aero=None, settings=None, upto='results', deformation=None, airfoils=None, name='p'):
    """Project -> (aircraft object, cur_state, lattice, vlmdata) for the first flight state"""
    d = fresh_dir(ctx, name)
    f = write_project(d, aircraft, aero, settings, deformation, airfoils)
    s, ac, st = load_project(f)
    cur, lat, data = first(stages(s, ac, st, upto))
    r = Stage()
    r.settings, r.aircraft, r.state, r.cur, r.lat, r.data, r.dir, r.file = s, ac, st, cur, lat, data, d, f
    r.input = aircraft
    size_label(ctx, lat)
    return r


def lat_arrays(lat):
    return dict(p=lat.p, v=lat.v, c=lat.c, n=lat.n, a=lat.a, b=lat.bound_leg_midpoints)


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def quiet_fds(path=os.devnull):
    """Silence stdout/stderr of the C++ kernels too"""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        os.close(saved[0])
        os.close(saved[1])
