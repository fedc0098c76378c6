"""
A CPACS document is analysed like the equivalent native project, and its aeroperformance map is filled in.

TiXI and TiGL are not installed here: vk/fakes holds stand-ins with their call interface.  The document is written from a
generated native aircraft, so the expected model is known without reading the document.
"""
import copy
import json
import os
import sys
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fakes'))

from vk import gen, sim, trans                            # noqa: E402
from vk.checks import c16, c20                            # noqa: E402
from vk.core import Sub, Skip, require, close             # noqa: E402

UID = st.text('abXY019_-. ', min_size=1, max_size=6).map(str.strip).filter(lambda s: any(c.isalnum() for c in s))
WRITTEN = dict(cl='CL', cd='CD', cs='CC', cmd='Cl', cms='Cm', cml='Cn')


def keep(s):
    """names lose every character but letters, digits, '-' and '_'"""
    return ''.join(c for c in s if c.isalnum() or c in '-_')


@st.composite
def models(draw, max_wings=2, symmetric=False):
    """A native aircraft (file-based airfoils, no panel numbers, trailing edge devices) and how its document looks"""
    ac = draw(gen.aircraft(controls=3, max_wings=max_wings, panels='none', ctl_types=('flap',), centered=False,
                           symmetries=(2,) if symmetric else (0, 2, 1, 3)))
    r = ac['refs']
    r['rcenter'] = list(r['gcenter'])
    r['chord'] = r['span']
    for k in ('area', 'span', 'chord'):
        r[k] = float(r[k]) or 1.5
    r['span'] = r['chord']
    doc = dict(wings=[], uid=draw(UID))
    ac['uid'] = keep(doc['uid'])
    names = draw(st.lists(UID, min_size=2, max_size=3, unique_by=keep))
    foils = []
    for n in names:
        foils.append(dict(name=n, a=draw(gen.num(0.03, 0.06, 0.001)), b=draw(gen.num(0.06, 0.12, 0.001))))
    suffix = draw(st.sampled_from(['', '.1', ' s']))
    for k, w in enumerate(ac['wings']):
        y0 = w['segments'][0]['vertices']['a'][1]
        if any(s['vertices']['b'][1] < s['vertices']['a'][1] - 1e-6 for s in w['segments']):
            # a fin which leans back and forth: put it upright
            for s in w['segments']:
                v = s['vertices']
                for le, te in (('a', 'd'), ('b', 'c')):
                    v[te][1] = round(v[te][1] - v[le][1] + y0, 9)
                    v[le][1] = y0
        turned = w['symmetry'] == 0 and not any(abs(s['vertices']['b'][1] - s['vertices']['a'][1]) < 1e-6 for s in w['segments']) \
            and draw(st.integers(0, 3)) == 0
        foil = [draw(st.sampled_from(names)) for _ in range(len(w['segments']) + 1)]
        ids = {}
        for i, s in enumerate(w['segments']):
            s.pop('panels', None)
            raw = f'w{k}s{i}{suffix}'
            ids[s['uid']] = raw
            s['uid'] = keep(raw)
            s['airfoils'] = dict(inner='airfoils/blade.' + keep(foil[i]), outer='airfoils/blade.' + keep(foil[i + 1]))
        w['controls'] = w.get('controls', [])
        comps = draw(st.integers(1, 2))
        where = [draw(st.integers(0, comps - 1)) for _ in w['controls']]
        order = sorted(range(len(where)), key=lambda j: where[j])
        w['controls'] = [w['controls'][j] for j in order]
        borders = []
        for c in w['controls']:
            borders.append(dict(raw=dict(c['segment_uid'])))
            c['segment_uid'] = {p: keep(ids[u]) for p, u in c['segment_uid'].items()}
            c.pop('panels', None)
            c['deflection'] = float(c['deflection'])
        doc['wings'].append(dict(
            ids=[ids[u] for u in ids], foil=foil, comps=comps, where=sorted(where), turned=turned,
            uid=w['uid'] + draw(st.sampled_from(['', '.', ' '])) + '.x',
            # half thickness at leading and trailing edge, the same numbers need not cancel exactly
            t=[draw(gen.num(0, 0.3, 0.01)), draw(gen.num(0, 0.3, 0.01))],
            noise=[draw(st.sampled_from([0.0, 0.0, 1e-16, -1e-16, 3e-15, -3e-15])) for _ in range(4)],
            listed=[0 if symmetric else draw(st.integers(0, 2)) for _ in w['controls']],
        ))
        w['uid'] = keep(doc['wings'][-1]['uid'])
        for c, l in zip(w['controls'], doc['wings'][-1]['listed']):
            if l == 0:
                c['deflection'], c['deflection_mirror'] = 0.0, None
            elif l == 1:
                c['deflection_mirror'] = None
            else:
                c['deflection_mirror'] = float(c.get('deflection_mirror', c['deflection']))
    doc['exact'] = draw(st.booleans())
    if doc['exact']:
        # the points of the document are the vertices, bit by bit
        for d in doc['wings']:
            d.update(t=[0.0, 0.0], noise=[0.0]*4, turned=False)
    doc['order'] = draw(st.sampled_from(['wings', 'reversed']))
    doc['trail'] = draw(st.sampled_from(['', ';']))
    doc['blank'] = draw(st.sampled_from(['', ' ']))
    # other content of a document, which is none of PyTornado's business
    doc['extras'] = draw(st.sets(st.sampled_from(['slat', 'spoiler', 'border', 'fuselage', 'tools', 'text'])).map(sorted))
    return dict(aircraft=ac, doc=doc, foils=foils)


@st.composite
def maps(draw):
    n = draw(st.integers(1, 3))
    col = lambda lo, hi, step: [draw(gen.num(lo, hi, step)) for _ in range(n)]
    return dict(altitude=col(0, 12000, 1), machNumber=col(0.05, 0.8, 0.001), angleOfAttack=col(-10, 10, 0.01),
                angleOfSideslip=col(-10, 10, 0.01))


@st.composite
def cases(draw):
    symmetric = draw(st.integers(0, 4)) == 4
    c = draw(models(symmetric=symmetric))
    c['maps'] = [draw(maps()) for _ in range(draw(st.integers(1, 3)))]
    for m in c['maps'] if symmetric else []:
        # side force, rolling and yawing moment vanish in all states
        m['angleOfSideslip'] = [0.0]*len(m['angleOfSideslip'])
    c['pick'] = draw(st.integers(0, len(c['maps']) - 1))
    c['stale'] = draw(st.sets(st.sampled_from(sorted(WRITTEN))).map(sorted))
    c['auto'] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    c['spell'] = draw(st.sampled_from(['__CPACS', '__cpacs']))
    c['suffix'] = draw(st.sampled_from(['.xml', '.XML', '.xml']))
    c['native_state'] = draw(gen.aero()) if draw(st.integers(0, 3)) == 0 else None
    c['runs'] = draw(st.integers(1, 2))
    return c


# ----- the document -----

def el(parent, tag, text=None, **attr):
    e = ET.SubElement(parent, tag, attr)
    if text is not None:
        e.text = text if isinstance(text, str) else repr(text)
    return e


def vec(parent, tag, values, doc):
    el(parent, tag, (';' + doc['blank']).join(repr(float(v)) for v in values) + doc['trail'], mapType='vector')


def foil_points(f):
    lines = c16.FOIL.format(a=f['a'], b=f['b']).splitlines()[1:]
    return [tuple(float(x) for x in ln.split()) for ln in lines]


def document(case, path):
    ac, doc = case['aircraft'], case['doc']
    root = ET.Element('cpacs')
    el(el(root, 'header'), 'name', 'generated')
    veh = el(root, 'vehicles')
    model = el(el(veh, 'aircraft'), 'model', uID=doc['uid'])
    el(model, 'name', 'the model')
    ref = el(model, 'reference')
    el(ref, 'area', ac['refs']['area'])
    el(ref, 'length', ac['refs']['span'])
    pt = el(ref, 'point')
    for k, v in zip('xyz', ac['refs']['gcenter']):
        el(pt, k, float(v))
    extras = doc.get('extras', [])
    if 'fuselage' in extras:
        e = el(el(model, 'fuselages'), 'fuselage', uID='fuselage 1', symmetry='x-z-plane')
        el(el(e, 'segments'), 'segment', uID='fuselage segment')
    wings = el(model, 'wings')
    tigl, listed = [], []
    for w, d in zip(ac['wings'], doc['wings']):
        e = el(wings, 'wing', uID=d['uid'])
        if w['symmetry']:
            e.set('symmetry', {1: 'x-y-plane', 2: 'x-z-plane', 3: 'y-z-plane'}[w['symmetry']])
        el(e, 'name', 'a wing')
        segs = el(e, 'segments')
        nseg = len(w['segments'])
        given = trans.swap_root_tip(w) if d['turned'] else w
        ids = dict(zip([s['uid'] for s in w['segments']], d['ids']))
        tab = dict(uid=d['uid'], symmetry=w['symmetry'], segments=[], comps=[],
                   profiles={f'{i + 1},1': n for i, n in enumerate(d['foil'])})
        for s in given['segments']:
            raw = ids[s['uid']]
            el(el(segs, 'segment', uID=raw), 'name', 'segment ' + raw)
            i = d['ids'].index(raw)
            sec = [[i + 1, 1], [i + 2, 1]]
            if d['turned']:
                sec.reverse()
            v = {k: list(p) for k, p in s['vertices'].items()}
            upright = abs(v['b'][1] - v['a'][1]) < 1e-6
            for k, n in zip('abcd', d['noise']):
                v[k][1] += n
            along = 1 if upright else 2
            t = [[h if j == along else 0.0 for j in range(3)] for h in d['t']]
            tab['segments'].append(dict(uid=raw, v=v, t=t, inner=sec[0], outer=sec[1]))
        comps = el(e, 'componentSegments')
        for ci in range(d['comps']):
            cu = f"{d['uid']}_comp{ci}"
            ce = el(comps, 'componentSegment', uID=cu)
            el(ce, 'name', cu)
            table = []
            mine = [(c, l) for c, l, p in zip(given['controls'], d['listed'], d['where']) if p == ci]
            if mine or d['t'][0] > 0.1:
                cs = el(ce, 'controlSurfaces')
                if 'slat' in extras:
                    dev = el(el(cs, 'leadingEdgeDevices'), 'leadingEdgeDevice', uID=cu + '_slat')
                    el(dev, 'name', 'slat')
                    shape = el(dev, 'outerShape')
                    for pos, eta in (('inner', 0.2), ('outer', 0.7)):
                        b = el(shape, f'{pos}Border')
                        el(el(b, 'etaTE'), 'eta', eta)
                        el(el(b, 'xsiTE'), 'xsi', 0.2)
                if 'spoiler' in extras:
                    dev = el(el(cs, 'spoilers'), 'spoiler', uID=cu + '_spoiler')
                    b = el(el(dev, 'outerShape'), 'innerBorder')
                    el(el(b, 'etaLE'), 'eta', 0.3)
                te = el(cs, 'trailingEdgeDevices') if mine else None
            for j, (c, l) in enumerate(mine):
                dev = el(te, 'trailingEdgeDevice', uID=c['uid'])
                el(dev, 'name', 'control')
                shape, way = el(dev, 'outerShape'), el(dev, 'path')
                for pos, nth in (('inner', 0), ('outer', 1)):
                    eta = round((2*j + nth + 1)/(2*len(mine) + 1), 6)
                    fx = lambda x: x if x in (0, 1) else round(0.1 + 0.85*x, 6)
                    xs, xh = c['rel_vertices'][f'xsi_{pos}'], c['rel_hinge_vertices'][f'xsi_{pos}']
                    pairs = sorted({(fx(x), x) for x in (xs, xh) if x not in (0, 1)})
                    table.append(dict(eta=eta, segment=ids[c['segment_uid'][pos]], seta=c['rel_vertices'][f'eta_{pos}'],
                                      xsi=[list(p) for p in pairs]))
                    b = el(shape, f'{pos}Border')
                    el(el(b, 'etaLE'), 'eta', eta)
                    el(el(b, 'etaTE'), 'eta', eta)
                    el(el(b, 'xsiLE'), 'xsi', fx(xs))
                    if 'border' in extras:
                        el(el(el(b, 'leadingEdgeShape'), 'relHeightLE'), 'xsi', 0.45)
                        el(b, 'xsiTE', 1.0)
                    el(el(way, f'{pos}HingePoint'), 'hingeXsi', fx(xh))
                if l:
                    listed.append((c, l))
            tab['comps'].append(dict(uid=cu, table=table))
        tigl.append(tab)
    apm = el(el(model, 'analyses'), 'aeroPerformance')
    for i, m in enumerate(case['maps']):
        am = el(apm, 'aeroMap', uID=f'map {i}')
        el(am, 'name', f'map {i}')
        body = el(am, 'aeroPerformanceMap')
        for k in ('altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip'):
            vec(body, k, m[k], doc)
        for k in case['stale']:
            vec(body, k, [123.0]*(i + 1), doc)
    foils = el(el(veh, 'profiles'), 'wingAirfoils')
    for i, f in enumerate(case['foils']):
        e = el(foils, 'wingAirfoil', uID=f'foil {i}')
        el(e, 'name', f['name'])
        pts = el(e, 'pointList')
        xz = foil_points(f)
        vec(pts, 'x', [p[0] for p in xz], doc)
        vec(pts, 'y', [0.0 for p in xz], doc)
        vec(pts, 'z', [p[1] for p in xz], doc)
    spec = el(root, 'toolspecific')
    if 'tools' in extras:
        other = el(spec, 'otherTool')
        el(other, 'aeroMapUID', 'another map')
        el(el(el(other, 'controlDevices'), 'controlDevice', uID='some device'), 'deflection', 11.0)
    tool = el(spec, 'pytornado')
    if 'text' in extras:
        el(tool, 'remark', 'any text')
    if len(case['maps']) > 1:
        el(tool, 'aeroMapUID', f"map {case['pick']}")
    if listed:
        devs = el(tool, 'controlDevices')
        for c, l in (listed if doc['order'] == 'wings' else listed[::-1]):
            e = el(devs, 'controlDevice', uID=c['uid'])
            el(e, 'deflection', c['deflection'])
            if l == 2:
                el(e, 'deflectionMirror', c['deflection_mirror'])
    for extra in case.get('unknown', []):
        devs = tool.find('controlDevices')
        devs = el(tool, 'controlDevices') if devs is None else devs
        el(el(devs, 'controlDevice', uID=extra), 'deflection', 3.0)
    el(spec, 'vk', json.dumps(tigl))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ET.ElementTree(root).write(path, encoding='utf-8', xml_declaration=True)


def flat(path, drop=None):
    """canonical content of a document; without the results of the map number `drop`"""
    root = ET.parse(path).getroot()
    out = []

    def walk(e, p):
        out.append((p, sorted(e.attrib.items()), (e.text or '').strip()))
        for i, k in enumerate(e):
            if drop is not None and e.tag == 'aeroPerformanceMap' and k.tag in WRITTEN and f'{drop}' in p:
                continue
            walk(k, f"{p}/{k.tag}[{k.get('uID', '')}]")
    walk(root, root.tag)
    return sorted(map(repr, out))


def map_values(path, i):
    root = ET.parse(path).getroot()
    am = root.findall('./vehicles/aircraft/model/analyses/aeroPerformance/aeroMap')[i].find('aeroPerformanceMap')
    out = {}
    for k in am:
        require(k.tag not in out, f'{k.tag} occurs twice')
        out[k.tag] = [float(x) for x in k.text.strip().strip(';').split(';')]
    return out


# ----- the expected native project -----

def native_project(case, root, aero):
    ac = copy.deepcopy(case['aircraft'])
    for w in ac['wings']:
        for c in w['controls']:
            if c['deflection_mirror'] is None:
                c.pop('deflection_mirror')
            c['panels'] = {}
    foils = {'blade.' + keep(f['name']): '# GEN\n' + '\n'.join(f'{x:+.7f} {z:+.7f}' for x, z in foil_points(f)) + '\n'
             for f in case['foils']}
    s = sim.make_settings(vlm_autopanels_c=case['auto'][0], vlm_autopanels_s=case['auto'][1])
    return sim.write_project(root, ac, aero, s, airfoils=foils)


def cpacs_project(case, root, state):
    name = 'ac' + case['suffix']
    s = sim.make_settings(vlm_autopanels_c=case['auto'][0], vlm_autopanels_s=case['auto'][1], aircraft=name, state=state)
    os.makedirs(os.path.join(root, 'airfoils'))
    path = os.path.join(root, 'aircraft', name)
    document(case, path)
    f = os.path.join(root, 'settings', 'run.json')
    sim.write_json(f, s)
    return f, path


def aero_of(m):
    n = len(m['altitude'])
    return dict(altitude=m['altitude'], mach=m['machNumber'], alpha=m['angleOfAttack'], beta=m['angleOfSideslip'],
                rate_P=[0]*n, rate_Q=[0]*n, rate_R=[0]*n)


def run(f):
    with sim.quiet_fds():
        return sim.standard_run(f)


def model_of(ac):
    """what an aircraft object describes"""
    out = dict(uid=ac.uid, refs={k: np.asarray(ac.refs[k], dtype=float).tolist() for k in ('area', 'span', 'chord', 'gcenter', 'rcenter')},
               wings=[])
    for u, w in ac.wings.items():
        out['wings'].append(dict(
            uid=u, symmetry=w.symmetry,
            segments=[dict(uid=su, vertices={k: np.asarray(s.vertices[k], dtype=float).tolist() for k in 'abcd'})
                      for su, s in w.segments.items()],
            controls=[dict(uid=cu, type=c.device_type, d=float(c.deflection),
                           dm=(float(c.deflection_mirror) if w.symmetry else None), seg=dict(c.segment_uid),
                           rv={k: float(v) for k, v in c.rel_vertices.items()},
                           rh={k: float(v) for k, v in c.rel_hinge_vertices.items()})
                      for cu, c in w.controls.items()]))
    return out


def alike(a, b, what):
    if isinstance(a, dict) and isinstance(b, dict):
        require(sorted(a) == sorted(b), f'{what}: {sorted(a)} and {sorted(b)}')
        for k in a:
            alike(a[k], b[k], f'{what}.{k}')
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        require(len(a) == len(b), f'{what}: {len(a)} and {len(b)} entries')
        for i, (x, y) in enumerate(zip(a, b)):
            alike(x, y, f'{what}[{i}]')
    elif isinstance(a, float) and isinstance(b, (float, int)):
        require(abs(a - b) <= 1e-9*max(1, abs(b)), f'{what}: {a} and {b}')
    else:
        require(a == b, f'{what}: {a!r} and {b!r}')


def labels(case, ctx):
    ac = case['aircraft']
    nctl = sum(len(w['controls']) for w in ac['wings'])
    ctx.label(f"{len(ac['wings'])} wings", 'controls' if nctl else 'no controls')
    if any(d['turned'] for d in case['doc']['wings']):
        ctx.label('described from tip to root')
    if any(abs(s['vertices']['b'][1] - s['vertices']['a'][1]) < 1e-6 for w in ac['wings'] for s in w['segments']):
        ctx.label('fin')
    ctx.nontrivial(nctl > 0 or len(ac['wings']) > 1)


def reference(ctx, case, aero):
    """Loads of the equivalent native project for every state"""
    d = sim.fresh_dir(ctx, 'native')
    f = native_project(case, d, aero)
    s, ac, state = sim.load_project(f)
    model = model_of(ac)
    out, tol = [], 1e-6
    for cur, lat, data in sim.stages(s, ac, state):
        r = sim.Stage()
        r.cur, r.lat, r.data, r.aircraft = cur, lat, data, ac
        _, F0, M0, cond = trans.tolerances(r)
        if not cond < (1e5 if case['doc']['exact'] else 1e3):
            raise Skip('ill-conditioned system')
        q = 0.5*cur.aero['density']*cur.aero['airspeed']**2
        R = ac.refs
        scale = {k: F0/(q*R['area']) for k in ('D', 'C', 'L', 'x', 'y', 'z')}
        scale.update(l=M0/(q*R['area']*R['span']), m=M0/(q*R['area']*R['chord']), n=M0/(q*R['area']*R['span']))
        scale.update({'F' + k: F0 for k in ('x', 'y', 'z', 'D', 'C', 'L')}, Mx=M0, My=M0, Mz=M0)
        # moments and forces per unit, for the effect of the normals
        unit = {k: ('F', 1/(q*R['area'])) for k in ('D', 'C', 'L', 'x', 'y', 'z')}
        unit.update(l=('M', 1/(q*R['area']*R['span'])), m=('M', 1/(q*R['area']*R['chord'])), n=('M', 1/(q*R['area']*R['span'])))
        unit.update({'F' + k: ('F', 1.0) for k in ('x', 'y', 'z', 'D', 'C', 'L')}, Mx=('M', 1.0), My=('M', 1.0), Mz=('M', 1.0))
        out.append(dict(stage=r, unit=unit, aero={k: float(v) for k, v in cur.aero.items() if v is not None},
                        lattice={k: np.array(v, copy=True) for k, v in sim.lat_arrays(lat).items()},
                        coeffs={k: float(data.coeffs[k]) for k in data.coeffs},
                        forces={k: float(data.forces[k]) for k in data.forces}, scale=scale))
    return model, out, tol


def key(k):
    return {'Fx': ('forces', 'x'), 'Fy': ('forces', 'y'), 'Fz': ('forces', 'z'), 'FD': ('forces', 'D'), 'FC': ('forces', 'C'),
            'FL': ('forces', 'L'), 'Mx': ('forces', 'l'), 'My': ('forces', 'm'), 'Mz': ('forces', 'n'),
            'Cx': ('coeffs', 'x'), 'Cy': ('coeffs', 'y'), 'Cz': ('coeffs', 'z'), 'CD': ('coeffs', 'D'), 'CC': ('coeffs', 'C'),
            'CL': ('coeffs', 'L'), 'Cl': ('coeffs', 'l'), 'Cm': ('coeffs', 'm'), 'Cn': ('coeffs', 'n')}[k]


def compare_run(case, res, want, tol, what):
    n = len(want)
    exact = case['doc']['exact']
    if len(res['lattice'].p) != len(want[-1]['lattice']['p']) and not exact and \
            trans.undecided(case['aircraft'], want[-1]['stage'].lat, case['auto']):
        raise Skip('rounding decides about a number of panels')
    for k, v in sim.lat_arrays(res['lattice']).items():
        if k != 'n':
            close(v, want[-1]['lattice'][k], f'{what}: lattice {k}', rtol=1e-8, atol=1e-8)
    dn = np.linalg.norm(np.asarray(res['lattice'].n) - want[-1]['lattice']['n'], axis=1)
    # the camber of an airfoil is found numerically: its slope follows the last digit of a vertex with an error of some 1e-4
    close(dn, 0*dn, f'{what}: normals', atol=1e-8 if exact else 5e-3)
    for w in want:
        e = trans.effect(w['stage'], dn)
        if e['big']:
            raise Skip('too sensitive')
        # what the states are compared with
        w['atol'] = {k: tol*w['scale'][k] + e[w['unit'][k][0]]*w['unit'][k][1] for k in w['scale']}
    for k in ('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz', 'Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn'):
        got = [float(v) for v in res['state'].results[k]]
        require(len(got) == n, f'{what}: {len(got)} values of {k} for {n} states')
        grp, kk = key(k)
        for i in range(n):
            close(got[i], want[i][grp][kk], f'{what}: {k} of state {i}', rtol=0, atol=want[i]['atol'][k if k in want[i]['atol'] else kk])


def analyse(case, ctx):
    labels(case, ctx)
    native = case['native_state']
    aero = native or aero_of(case['maps'][case['pick']])
    model, want, tol = reference(ctx, case, aero)
    d = sim.fresh_dir(ctx, 'cpacs')
    f, xml = cpacs_project(case, d, 'st.json' if native else case['spell'])
    if native:
        ctx.label('native state')
        sim.write_json(os.path.join(d, 'state', 'st.json'), {'aero': native})
    import pytornado.fileio as io
    import pytornado.stdfun.run as prun
    raw = open(xml, 'rb').read()
    before = flat(xml, f"map {case['pick']}")
    ac = io.cpacs.aircraft.load(prun.get_settings(f))
    alike(model_of(ac), model, 'aircraft')
    require(open(xml, 'rb').read() == raw, 'loading changed the document')
    for k in range(case['runs']):
        res = run(f)
        compare_run(case, res, want, tol, f'run {k}')
        if native:
            require(open(xml, 'rb').read() == raw, 'a run with its own flight state changed the document')
            continue
        require(flat(xml, f"map {case['pick']}") == before, 'the run changed something else in the document')
        got = map_values(xml, case['pick'])
        for ck, nk in WRITTEN.items():
            require(ck in got, f'{ck} is missing in the map')
            require(len(got[ck]) == len(want), f'{ck}: {len(got[ck])} values for {len(want)} states')
            for i, w in enumerate(want):
                v = w['coeffs'][nk[1]]
                close(got[ck][i], v, f'{ck} of state {i}', rtol=1e-5, atol=w['atol'][nk[1]] + 1e-300)
    if not native:
        ctx.label(f"{len(case['maps'])} maps", f'{len(want)} states')


# ----- conversion -----

@st.composite
def convert_cases(draw):
    c = draw(models())
    c.update(maps=[], pick=0, stale=[], auto=[draw(st.integers(1, 3)), draw(st.integers(1, 3))], suffix='.xml',
             aero=draw(gen.aero()), spell=draw(st.sampled_from(['rel', 'abs'])), move=draw(st.booleans()))
    return c


def convert(case, ctx):
    import shutil
    labels(case, ctx)
    model, want, tol = reference(ctx, case, case['aero'])
    d = sim.fresh_dir(ctx, 'conv')
    f, xml = cpacs_project(case, d, 'st.json')
    raw = open(xml, 'rb').read()
    rc = c20.cli(['--cpacs2json', 'aircraft/ac.xml' if case['spell'] == 'rel' else xml], d)
    require(rc == 0, f'exit status {rc}')
    require(open(xml, 'rb').read() == raw, 'the conversion changed the document')
    js = os.path.join(d, 'aircraft', 'ac.json')
    require(os.path.isfile(js), 'no JSON file was written')
    if case['move']:
        e = os.path.join(ctx.workdir, 'cases', 'elsewhere')
        shutil.rmtree(e, ignore_errors=True)
        shutil.move(d, e)
        d = e
        ctx.label('moved')
    s = sim.make_settings(vlm_autopanels_c=case['auto'][0], vlm_autopanels_s=case['auto'][1])
    sim.write_json(os.path.join(d, 'state', 'st.json'), {'aero': case['aero']})
    g = os.path.join(d, 'settings', 'run.json')
    sim.write_json(g, s)
    _, ac, _ = sim.load_project(g)
    alike(model_of(ac), model, 'converted aircraft')
    compare_run(case, run(g), want, tol, 'converted')


# ----- refusals -----

@st.composite
def bad_cases(draw):
    c = draw(models(max_wings=1))
    m = draw(maps())
    c.update(maps=[m], pick=0, stale=[], auto=[1, 1], suffix='.xml', spell='__CPACS')
    c['bad'] = draw(st.sampled_from(['lengths', 'device', 'json', 'angle', 'altitude', 'missing']))
    if c['bad'] == 'lengths':
        k = draw(st.sampled_from(sorted(m)))
        if len(m[k]) > 1 and draw(st.booleans()):
            m[k] = m[k][:draw(st.integers(1, len(m[k]) - 1))]
        else:
            m[k] = m[k] + [m[k][-1]]*draw(st.integers(1, 2))
    if c['bad'] == 'device':
        c['unknown'] = [draw(st.sampled_from(['nothing', 'w0', 'W0_C0']))]
    if c['bad'] == 'angle':
        m[draw(st.sampled_from(['angleOfAttack', 'angleOfSideslip']))][-1] = draw(st.sampled_from([91.0, -120.0, 360.0]))
    if c['bad'] == 'altitude':
        m['altitude'][0] = 1e6
    return c


def refuse(case, ctx):
    ctx.label(case['bad'])
    ctx.nontrivial(True)
    d = sim.fresh_dir(ctx, 'bad')
    f, xml = cpacs_project(case, d, '__CPACS')
    if case['bad'] == 'json':
        native_project(case, d, sim.AERO0)
        sim.write_json(f, sim.make_settings(aircraft='ac.json', state='__CPACS'))
    if case['bad'] == 'missing':
        os.remove(xml)
    raw = open(xml, 'rb').read() if os.path.exists(xml) else None
    try:
        run(f)
    except Exception as e:
        ctx.label(type(e).__name__)
    else:
        require(False, f"accepted: {case['bad']}")
    finally:
        sim.reset_logging()
    require((open(xml, 'rb').read() if os.path.exists(xml) else None) == raw, 'a refused run changed the document')


SUBS = [
    Sub('analyse', cases(), analyse, 500, 12000, 'several wings or at least one control surface'),
    Sub('convert', convert_cases(), convert, 250, 5000, 'several wings or at least one control surface'),
    Sub('refuse', bad_cases(), refuse, 80, 800, 'every case'),
]
