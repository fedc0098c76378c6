"""Saving and reloading an aircraft changes nothing, neither in the file nor in an analysis, here or elsewhere."""
import copy
import json
import os
import shutil
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c19
from vk.core import Sub, Skip, require, close

FOIL = """GENERATED
1.00 0.00
0.75 {a}
0.50 {b}
0.25 {b}
0.10 0.04
0.00 0.00
0.10 -0.02
0.25 -0.03
0.50 -0.03
0.75 -0.02
1.00 0.00
"""


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(controls=2, max_c=3, max_s=3, max_segs=3, panels=draw(st.sampled_from(['mixed', 'explicit']))))
    names = draw(st.lists(st.sampled_from(['blade.one', 'two.dat', 'blade.three.dat', 'NACA.txt', 'sub/four.dat', 'sub/blade.five',
                                           'my blade.dat']), max_size=3, unique=True))
    foils = {}
    for nm in names:
        foils[nm] = FOIL.format(a=draw(gen.num(0.03, 0.06, 0.001)), b=draw(gen.num(0.06, 0.12, 0.001)))
    refd = {}
    if names:
        for w in ac['wings']:
            for s in w['segments']:
                for pos in ('inner', 'outer'):
                    if draw(st.booleans()):
                        nm = draw(st.sampled_from(names))
                        s['airfoils'][pos] = draw(st.sampled_from(['airfoils/', 'airfoils/', '@library/'])) + nm
                        refd[nm] = 1
    for w in ac['wings']:
        for c in w.get('controls', []):
            k = draw(st.integers(0, 3))
            if k == 0:
                c['panels'] = dict(num_c=None)
            if k == 1:
                c['deflection'] = int(round(c['deflection']))
    if draw(st.integers(0, 4)) == 0:
        ac['refs']['comment'] = draw(st.text(max_size=10))
    f = None
    if draw(st.integers(0, 2)) == 0:
        f = {w['uid']: draw(c19.field(w, False)) for w in ac['wings']}
    return dict(aircraft=ac, foils={n: foils[n] for n in sorted(refd)}, aero=draw(gen.aero()), field=f,
                cycles=draw(st.integers(1, 2)), auto=[draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                analyse_first=draw(st.booleans()), move=draw(st.booleans()))


def expand(ac, where):
    """'@library' stands for a folder of airfoils outside of the project"""
    ac = copy.deepcopy(ac)
    n = 0
    for w in ac['wings']:
        for s in w['segments']:
            for pos, v in s['airfoils'].items():
                if v.startswith('@library/'):
                    s['airfoils'][pos] = where + v[len('@library'):]
                    n += 1
    return ac, n


def run(f):
    s, ac, stt = sim.load_project(f)
    cur, lat, data = sim.first(sim.stages(s, ac, stt))
    return s, ac, dict(p=np.array(lat.p), n=np.array(lat.n), gamma=np.array(data.panelwise['gamma']),
                       F=[data.forces[k] for k in 'xyzDCLlmn'], C=[data.coeffs[k] for k in 'xyzDCLlmn'])


def same(a, b, what):
    for k in a:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        require(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), f'{what}: {k} changed')


def norm(ac):
    """canonical content of an aircraft file"""
    out = dict(uid=ac['uid'], refs={k: ([float(x) for x in v] if isinstance(v, list) else v if isinstance(v, str) else float(v))
                                    for k, v in ac['refs'].items() if v is not None}, wings=[])
    for w in ac['wings']:
        we = dict(uid=w['uid'], symmetry=w['symmetry'], segments=[], controls=[])
        for s in w['segments']:
            we['segments'].append(dict(
                uid=s['uid'], vertices={k: [float(x) for x in v] for k, v in s['vertices'].items()},
                airfoils=dict(s['airfoils']), panels={k: (s.get('panels') or {}).get(k) for k in ('num_c', 'num_s')}))
        for c in w.get('controls', []):
            we['controls'].append(dict(
                uid=c['uid'], device_type=c['device_type'], deflection=float(c['deflection']),
                deflection_mirror=(float(c['deflection'] if c.get('deflection_mirror') is None else c['deflection_mirror'])
                                   if w['symmetry'] else None),
                segment_uid=dict(c['segment_uid']), rel_vertices=dict(c['rel_vertices']),
                rel_hinge_vertices=dict(c['rel_hinge_vertices']), panels=dict(num_c=c['panels'].get('num_c'))))
        out['wings'].append(we)
    return out


def pairs(got, want):
    for w1, w2 in zip(got['wings'], want['wings']):
        for s1, s2 in zip(w1['segments'], w2['segments']):
            yield s1['panels'], s2['panels']
        for c1, c2 in zip(w1['controls'], w2['controls']):
            yield c1['panels'], c2['panels']


def roundtrip(case, ctx):
    import pytornado.fileio as io
    d = sim.fresh_dir(ctx, 'proj')
    os.makedirs(os.path.join(d, 'airfoils', 'sub'))
    st_kw = sim.make_settings(vlm_autopanels_c=case['auto'][0], vlm_autopanels_s=case['auto'][1])
    for n, text in case['foils'].items():
        with open(os.path.join(d, 'airfoils', n), 'w') as fp:
            fp.write(text)
    lib = sim.fresh_dir(ctx, 'library')
    acd, outside = expand(case['aircraft'], lib)
    case = dict(case, aircraft=acd)
    if outside:
        ctx.label('airfoils outside of the project')
        os.makedirs(os.path.join(lib, 'sub'))
        for n, text in case['foils'].items():
            with open(os.path.join(lib, n), 'w') as fp:
                fp.write(text.replace('0.25 -0.03', '0.25 -0.01').replace('0.50 -0.03', '0.50 0.01'))
    f = sim.write_project(d, case['aircraft'], case['aero'], st_kw)
    acfile = os.path.join(d, 'aircraft', 'ac.json')
    s, ac, first = run(f)
    if not np.all(np.isfinite(first['gamma'])):
        raise Skip('singular system')
    if case['field']:
        # the deformation is no part of the aircraft file
        fd = sim.write_project(os.path.join(d), case['aircraft'], case['aero'], st_kw, deformation=case['field'], name='deformed')
        s, ac, _ = run(fd)
        ctx.label('saved after a deformed analysis')
    analysed = bool(case['analyse_first'] or case['field'])
    if not analysed:
        ac = io.native.aircraft.load(s)
    text = None
    for k in range(case['cycles']):
        io.native.aircraft.save(ac, s)
        with open(acfile) as fp:
            new = fp.read()
        saved = json.loads(new)
        got, want = norm(saved), norm(case['aircraft'])
        if analysed or k:
            # an analysis fills in automatic panel numbers: they may be written out
            for a, b in pairs(got, want):
                for key in b:
                    if b[key] is None:
                        require(a[key] is None or a[key] > 0, f'panel number {a[key]}')
                        a[key] = None
        require(got == want, f'saved file differs after cycle {k}:\n{got}\n{want}')
        require(text is None or k < 2 or json.loads(text) == saved, 'saving twice gives different files')
        text = new
        _, ac, again = run(f)
        same(first, again, f'reloaded aircraft (cycle {k})')
        s, ac, _ = run(f)
    if case['move']:
        d2 = os.path.join(ctx.workdir, 'cases', 'elsewhere')
        shutil.rmtree(d2, ignore_errors=True)
        shutil.move(d, d2)
        _, _, again = run(os.path.join(d2, 'settings', 'run.json'))
        same(first, again, 'project moved after saving')
    gen.describe(case['aircraft'], ctx)
    if case['foils']:
        ctx.label('airfoil files')
    ctx.nontrivial(any(w.get('controls') for w in case['aircraft']['wings']) or len(case['aircraft']['wings']) > 1
                   or bool(case['foils']) or len(case['aircraft']['wings'][0]['segments']) > 1)


SUBS = [Sub('roundtrip', cases(), roundtrip, 700, 15000, 'several wings or segments, controls or airfoil files')]
