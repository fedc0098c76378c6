"""Ill-defined aircraft are refused; well-defined ones are measured as their geometry says."""
import copy
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, ctl, mesh
from vk.core import Sub, Skip, require, close


# ---------- measures of valid aircraft ----------

def seg_measures(s):
    a, b, c, d = mesh.seg_corners(s)
    span = math.hypot(b[1] - a[1], b[2] - a[2])
    return dict(span=span, inner=np.linalg.norm(d - a), outer=np.linalg.norm(c - b),
                area=span*0.5*(np.linalg.norm(d - a) + np.linalg.norm(c - b)),
                sweep=math.degrees(math.atan2(b[0] - a[0], span)))


@st.composite
def measure_cases(draw):
    ac = draw(gen.aircraft(max_wings=3, max_segs=3, controls=3))
    if draw(st.integers(0, 2)) == 0:
        # anywhere in space
        for w in ac['wings']:
            t = [draw(gen.num(-40, 40, 1)) for _ in range(3)]
            for sg in w['segments']:
                sg['vertices'] = {k: [round(x + y, 9) for x, y in zip(v, t)] for k, v in sg['vertices'].items()}
    return ac


def measures(case, ctx):
    ac = case
    d = sim.fresh_dir(ctx, 'p')
    _, craft, _ = sim.load_project(sim.write_project(d, ac))
    require(craft.uid == ac['uid'], 'aircraft uid')
    require(list(craft.wings) == [w['uid'] for w in ac['wings']], 'wings of the aircraft')
    lo, hi = np.zeros(3), np.zeros(3)
    total = 0.0
    for w in ac['wings']:
        W = craft.wings[w['uid']]
        require(list(W.segments) == [s['uid'] for s in w['segments']], f"segments of {w['uid']}")
        require(list(W.controls) == [c['uid'] for c in w.get('controls', [])], f"controls of {w['uid']}")
        require(W.symmetry == w['symmetry'], f"symmetry of {w['uid']}")
        ms = [seg_measures(s) for s in w['segments']]
        span = sum(m['span'] for m in ms)
        area = sum(m['area'] for m in ms)
        close(W.span, span, f"span of wing {w['uid']}", rtol=1e-9)
        close(W.area, area, f"area of wing {w['uid']}", rtol=1e-9)
        total += area
        pos = 0.0
        for s, m in zip(w['segments'], ms):
            S = W.segments[s['uid']]
            what = f"segment {s['uid']}: "
            close(S.geometry['span'], m['span'], what + 'span', rtol=1e-9)
            close(S.geometry['inner_chord'], m['inner'], what + 'inner chord', rtol=1e-9)
            close(S.geometry['outer_chord'], m['outer'], what + 'outer chord', rtol=1e-9)
            close(S.geometry['sweep'], m['sweep'], what + 'sweep', atol=1e-7)
            close(S.area, m['area'], what + 'area', rtol=1e-9)
            close(S.position['inner'], pos/span, what + 'inner position', atol=1e-9)
            pos += m['span']
            close(S.position['outer'], pos/span, what + 'outer position', atol=1e-9)
            a, b, c, d_ = mesh.seg_corners(s)
            nv = np.cross(b - a, d_ - a)
            close(S.normal_vector, nv, what + 'normal vector', rtol=1e-9, scale=np.linalg.norm(nv))
            md = np.asarray(S.main_direction)
            require(abs(md @ (d_ - a)) <= 1e-9*np.linalg.norm(md)*np.linalg.norm(d_ - a) and md @ (b - a) > 0,
                    what + 'main direction must be perpendicular to the inner edge and point outwards')
            pts = np.array([a, b, c, d_])
            if w['symmetry']:
                pts = np.concatenate([pts, pts*mesh.FLIP[w['symmetry']]])
            lo, hi = np.minimum(lo, pts.min(axis=0)), np.maximum(hi, pts.max(axis=0))
        for c in w.get('controls', []):
            C = W.controls[c['uid']]
            what = f"control {c['uid']}: "
            segs = {s['uid']: mesh.seg_corners(s) for s in w['segments']}
            qi, qo = segs[c['segment_uid']['inner']], segs[c['segment_uid']['outer']]
            r, h = c['rel_vertices'], c['rel_hinge_vertices']
            flap = c['device_type'] == 'flap'
            at = lambda q, e, x: mesh.bilinear(q, np.array(e), np.array(x))
            want = dict(a=at(qi, r['eta_inner'], r['xsi_inner'] if flap else 0.0),
                        b=at(qo, r['eta_outer'], r['xsi_outer'] if flap else 0.0),
                        c=at(qo, r['eta_outer'], 1.0 if flap else r['xsi_outer']),
                        d=at(qi, r['eta_inner'], 1.0 if flap else r['xsi_inner']))
            for k in 'abcd':
                close(C.abs_vertices[k], want[k], what + f'corner {k}', atol=1e-9, rtol=1e-9)
            close(C.abs_hinge_vertices['p_inner'], at(qi, r['eta_inner'], h['xsi_inner']), what + 'inner hinge point', atol=1e-9, rtol=1e-9)
            close(C.abs_hinge_vertices['p_outer'], at(qo, r['eta_outer'], h['xsi_outer']), what + 'outer hinge point', atol=1e-9, rtol=1e-9)
            require(C.deflection == c['deflection'], what + 'deflection')
            if w['symmetry']:
                require(C.deflection_mirror == c.get('deflection_mirror', c['deflection']), what + 'mirrored deflection')
    close(craft.area, total, 'area of the aircraft', rtol=1e-9)
    close(craft.size, np.linalg.norm(hi - lo), 'size of the aircraft', rtol=1e-9)
    for k, v in ac['refs'].items():
        close(craft.refs[k], v, f'reference value {k}', rtol=0)
    gen.describe(ac, ctx)
    ctx.nontrivial(len(ac['wings']) > 1 or len(ac['wings'][0]['segments']) > 1)


# ---------- automatic panel numbers ----------

@st.composite
def auto_cases(draw):
    ac = draw(gen.aircraft(panels='mixed', controls=3, max_segs=3))
    for w in ac['wings']:
        for c in w.get('controls', []):
            how = draw(st.sampled_from(['keep', 'omit', 'null', 'empty', 'keep']))
            if how == 'omit':
                del c['panels']
            elif how == 'null':
                c['panels'] = {'num_c': None}
            elif how == 'empty':
                c['panels'] = {}
    return dict(aircraft=ac, c=draw(st.one_of(st.none(), st.integers(1, 12))), s=draw(st.one_of(st.none(), st.integers(1, 24))))


def auto(case, ctx):
    ac = case['aircraft']
    settings = sim.make_settings()
    for k in 'cs':
        if case[k] is None:
            del settings['vlm_autopanels_' + k]
        else:
            settings['vlm_autopanels_' + k] = case[k]
    # documented defaults of the settings
    auto_c = 4 if case['c'] is None else case['c']
    auto_s = 4 if case['s'] is None else case['s']
    r = sim.run_case(ctx, ac, settings=settings, upto='lattice')
    parts = mesh.parts(ac, r.lat)
    used = False
    for w in ac['wings']:
        W = r.aircraft.wings[w['uid']]
        span = sum(seg_measures(s)['span'] for s in w['segments'])
        for s in w['segments']:
            p = s.get('panels') or {}
            S = W.segments[s['uid']]
            what = f"segment {s['uid']}: "
            want_c = p.get('num_c') or auto_c
            require(S.panels['num_c'] == want_c, what + f"{S.panels['num_c']} chordwise panels, expected {want_c}")
            if p.get('num_s'):
                lo = hi = p['num_s']
            else:
                x = seg_measures(s)['span']/span*auto_s
                lo, hi = math.ceil(x - 1e-9), math.ceil(x + 1e-9)
            used = used or not p.get('num_s') or not p.get('num_c')
            require(max(1, lo) <= S.panels['num_s'] <= hi, what + f"{S.panels['num_s']} spanwise panels, expected {hi}")
            for m in ((False, True) if w['symmetry'] else (False,)):
                strips = mesh.check_tiling(parts[(w['uid'], s['uid'], m)], r.lat)
                lines = np.array([t[0] for t in strips] + [1.0])
                for e in np.linspace(0, 1, hi + 1):
                    require(hi != lo or np.abs(lines - e).min() <= 0.0101, what + f'no mesh line near eta = {e:.4f}')
                for t in strips:
                    if all(n is None for n in t[3]):
                        require(len(t[3]) == want_c, what + f'{len(t[3])} chordwise panels in the mesh, expected {want_c}')
        for c in w.get('controls', []):
            want = (c.get('panels') or {}).get('num_c') or auto_c
            require(W.controls[c['uid']].panels['num_c'] == want, f"control {c['uid']}: chordwise panels")
            got = [n for e in r.lat.panel_bookkeeping if e.subarea.parent_control is not None
                   and e.subarea.parent_control.uid == c['uid'] for n in [e.num_chordwise_panels]]
            require(got and all(n == want for n in got), f"control {c['uid']}: {got} chordwise panels in the mesh, expected {want}")
    gen.describe(ac, ctx)
    ctx.nontrivial(used)


# ---------- single faults ----------

def _num(draw, lo, hi):
    return float(draw(gen.num(lo, hi, 0.01)))


def wings_with(ac, key):
    return [w for w in ac['wings'] if w.get(key)]


BAD_NUMBERS = ['1.0', None, [], {}, 'x']
KINDS = ('dup wing', 'dup segment', 'dup control', 'unknown segment', 'symmetry', 'device', 'deflection range', 'deflection type',
         'mirror range', 'mirror type', 'eta range', 'xsi range', 'hinge range', 'eta order', 'missing control entry', 'ref missing',
         'ref range', 'ref type', 'center length', 'center type', 'vertex missing', 'vertex length', 'vertex type', 'airfoil unknown',
         'airfoil missing', 'panels range', 'panels type', 'control panels', 'missing key', 'empty uid', 'uid type', 'overlap',
         'segment order', 'nothing')


@st.composite
def bad_cases(draw):
    ac = draw(gen.aircraft(max_wings=2, max_segs=3, controls=3))
    return dict(kind=draw(st.sampled_from(KINDS)), aircraft=ac, pick=draw(st.lists(st.integers(0, 10**6), min_size=6, max_size=6)),
                big=draw(gen.num(0.01, 50, 0.01)))


def need_control(ac, pick):
    """A wing with a control (one is added if there is none)"""
    ws = wings_with(ac, 'controls')
    if not ws:
        w = ac['wings'][pick % len(ac['wings'])]
        s = w['segments'][pick % len(w['segments'])]['uid']
        w['controls'] = [dict(uid='cx', device_type='flap', deflection=5.0, segment_uid=dict(inner=s, outer=s),
                              rel_vertices=dict(eta_inner=0.2, eta_outer=0.7, xsi_inner=0.7, xsi_outer=0.8),
                              rel_hinge_vertices=dict(xsi_inner=0.7, xsi_outer=0.8), panels=dict(num_c=2))]
        ws = [w]
    w = ws[pick % len(ws)]
    return w, w['controls'][pick % len(w['controls'])]


def mutate(case):
    """Plants exactly one fault; returns its description"""
    kind, ac, p, big = case['kind'], case['aircraft'], case['pick'], case['big']
    W = ac['wings'][p[0] % len(ac['wings'])]
    S = W['segments'][p[1] % len(W['segments'])]
    sel = lambda seq, i=2: seq[p[i] % len(seq)]
    if kind == 'dup wing':
        new = copy.deepcopy(W)
        for s in new['segments']:
            for v in s['vertices'].values():
                v[2] += 5.0
        ac['wings'].append(new)
        return f"two wings called {W['uid']}"
    if kind == 'dup segment':
        new = copy.deepcopy(S)
        for v in new['vertices'].values():
            v[1] += 20.0
        W['segments'].append(new)
        return f"two segments called {S['uid']} on one wing"
    if kind == 'dup control':
        w, c = need_control(ac, p[3])
        used = [(x['segment_uid']['inner'], x['segment_uid']['outer']) for x in w['controls']]
        free = [s['uid'] for s in w['segments']]
        new = copy.deepcopy(c)
        new['device_type'] = 'slat' if c['device_type'] == 'flap' else 'flap'
        x = 0.1 if new['device_type'] == 'slat' else 0.9
        new['rel_vertices'].update(xsi_inner=x, xsi_outer=x)
        w['controls'].append(new)
        return f"two controls called {c['uid']} on one wing"
    if kind == 'unknown segment':
        w, c = need_control(ac, p[3])
        which = sel(['inner', 'outer', 'both'])
        others = [s['uid'] for x in ac['wings'] if x is not w for s in x['segments']]
        bad = sel(['nothing', '', c['segment_uid']['inner'].upper() + '_', w['uid']] + others, 4)
        for k in ('inner', 'outer'):
            if which in (k, 'both'):
                c['segment_uid'][k] = bad
        return f"control {c['uid']} on unknown segment {bad!r} ({which})"
    if kind == 'symmetry':
        W['symmetry'] = sel([4, -1, 7, '2', None, 'xz', [2], 1.5])
        return f"symmetry flag {W['symmetry']!r}"
    if kind == 'device':
        w, c = need_control(ac, p[3])
        c['device_type'] = sel(['aileron', 'Flap', '', None, 1, 'flaps', 'spoiler', 'SLAT'])
        return f"device type {c['device_type']!r}"
    if kind == 'deflection range':
        w, c = need_control(ac, p[3])
        c['deflection'] = sel([1, -1])*(90.0 + big)
        return f"deflection {c['deflection']}"
    if kind == 'deflection type':
        w, c = need_control(ac, p[3])
        c['deflection'] = sel(BAD_NUMBERS)
        return f"deflection {c['deflection']!r}"
    if kind in ('mirror range', 'mirror type'):
        w, c = need_control(ac, p[3])
        if not w['symmetry']:
            w['symmetry'] = 2
        c['deflection_mirror'] = sel([1, -1])*(90.0 + big) if kind == 'mirror range' else sel(['1.0', [], {}, 'x'])
        return f"mirrored deflection {c['deflection_mirror']!r}"
    if kind == 'eta range':
        w, c = need_control(ac, p[3])
        k = sel(['eta_inner', 'eta_outer'])
        c['rel_vertices'][k] = sel([1.0 + big, -big], 4)
        return f"{k} = {c['rel_vertices'][k]}"
    if kind == 'xsi range':
        w, c = need_control(ac, p[3])
        k = sel(['xsi_inner', 'xsi_outer'])
        c['rel_vertices'][k] = sel([1.0 + big, -big], 4)
        return f"{k} = {c['rel_vertices'][k]}"
    if kind == 'hinge range':
        w, c = need_control(ac, p[3])
        k = sel(['xsi_inner', 'xsi_outer'])
        c['rel_hinge_vertices'][k] = sel([1.0 + big, -big], 4)
        return f"hinge {k} = {c['rel_hinge_vertices'][k]}"
    if kind == 'eta order':
        w, c = need_control(ac, p[3])
        c['segment_uid']['outer'] = c['segment_uid']['inner']
        lo = min(0.9, big/50)
        hi = sel([lo, min(1.0, lo + 0.3), min(1.0, lo + 0.1)])
        c['rel_vertices'].update(eta_inner=float(hi), eta_outer=float(lo))
        return f'eta_inner {hi} not below eta_outer {lo}'
    if kind == 'missing control entry':
        w, c = need_control(ac, p[3])
        k = sel(['uid', 'device_type', 'deflection', 'segment_uid', 'rel_vertices', 'rv', 'rv', 'su'])
        if k in ('rv', 'su'):
            dct = c[dict(rv='rel_vertices', su='segment_uid')[k]]
            kk = sel(sorted(dct), 4)
            if sel([True, False], 5):
                del dct[kk]
            else:
                dct[kk] = None
            return f"control without {kk} in {k}"
        del c[k]
        return f'control without {k}'
    if kind == 'ref missing':
        k = sel(['gcenter', 'rcenter', 'area', 'chord', 'span'])
        if sel([True, False], 4):
            del ac['refs'][k]
        else:
            ac['refs'][k] = None
        return f'no reference value {k}'
    if kind == 'ref range':
        k = sel(['area', 'chord', 'span'])
        ac['refs'][k] = sel([0, -big, 0.0, -1], 4)
        return f"reference {k} = {ac['refs'][k]}"
    if kind == 'ref type':
        k = sel(['area', 'chord', 'span'])
        ac['refs'][k] = sel(['big', [], {}, ''], 4)
        return f"reference {k} = {ac['refs'][k]!r}"
    if kind == 'center length':
        k = sel(['gcenter', 'rcenter'])
        ac['refs'][k] = sel([[0.0, 1.0], [0.0]*4, [], [1.0]], 4)
        return f"{k} = {ac['refs'][k]}"
    if kind == 'center type':
        k = sel(['gcenter', 'rcenter'])
        ac['refs'][k] = sel([['0', 0.0, 0.0], 1.0, 'abc', [[0], [0], [0]], [0.0, None, 0.0]], 4)
        return f"{k} = {ac['refs'][k]!r}"
    if kind == 'vertex missing':
        k = sel('abcd')
        if sel([True, False], 4):
            del S['vertices'][k]
        else:
            S['vertices'][k] = None
        return f'no vertex {k}'
    if kind == 'vertex length':
        k = sel('abcd')
        S['vertices'][k] = sel([S['vertices'][k][:2], S['vertices'][k] + [0.0], []], 4)
        return f'vertex {k} with {len(S["vertices"][k])} coordinates'
    if kind == 'vertex type':
        k = sel('abcd')
        S['vertices'][k] = sel(['abc', ['1', 0.0, 0.0], 1.0, [0.0, None, 1.0]], 4)
        return f"vertex {k} = {S['vertices'][k]!r}"
    if kind == 'airfoil unknown':
        k = sel(['inner', 'outer'])
        S['airfoils'][k] = sel(['nothing', 'airfoils/missing.dat', '/missing/foil.dat', '', 'clark y'], 4)
        return f"airfoil {S['airfoils'][k]!r}"
    if kind == 'airfoil missing':
        k = sel(['inner', 'outer', 'all'])
        if k == 'all':
            del S['airfoils']
        else:
            del S['airfoils'][k]
        return f'no airfoil ({k})'
    if kind == 'panels range':
        S.setdefault('panels', {})[sel(['num_c', 'num_s'])] = sel([0, -1, -int(big) - 1], 4)
        return f"panels {S['panels']}"
    if kind == 'panels type':
        S.setdefault('panels', {})[sel(['num_c', 'num_s'])] = sel([1.5, '2', [], 2.0], 4)
        return f"panels {S['panels']}"
    if kind == 'control panels':
        w, c = need_control(ac, p[3])
        c['panels'] = dict(num_c=sel([0, -1, 1.5, '2', [], -3]))
        return f"control panels {c['panels']}"
    if kind == 'missing key':
        which = sel(['uid', 'refs', 'wings', 'wing uid', 'wing segments', 'seg uid', 'seg vertices'])
        if which in ('uid', 'refs', 'wings'):
            del ac[which]
        elif which.startswith('wing '):
            del W[which[5:]]
        else:
            del S[which[4:]]
        return f'no entry {which}'
    if kind == 'empty uid':
        x = sel([W, S])
        x['uid'] = ''
        return 'empty identifier'
    if kind == 'uid type':
        x = sel([W, S, ac])
        x['uid'] = sel([1, None, [], 2.5], 4)
        return f"identifier {x['uid']!r}"
    if kind == 'overlap':
        w, c = need_control(ac, p[3])
        new = copy.deepcopy(c)
        new['uid'] = 'overlapping'
        w['controls'].append(new)
        if sel([True, False]):
            new['device_type'] = 'slat' if c['device_type'] == 'flap' else 'flap'
        return 'two controls at one place'
    if kind == 'segment order':
        w, c = need_control(ac, p[3])
        if len(w['segments']) == 1:
            s = w['segments'][0]
            new = copy.deepcopy(s)
            new['uid'] = s['uid'] + '_next'
            v = s['vertices']
            new['vertices'] = {k: [q + (r - t) for q, r, t in zip(v[k], v['b'], v['a'])] for k in 'abcd'}
            w['segments'].append(new)
        i = p[4] % (len(w['segments']) - 1)
        j = i + 1 + p[5] % (len(w['segments']) - 1 - i)
        c['segment_uid'] = dict(inner=w['segments'][j]['uid'], outer=w['segments'][i]['uid'])
        return f"control {c['uid']} from segment number {j} back to {i}"
    if kind == 'nothing':
        ac['wings'] = []
        return 'no wing'
    raise AssertionError(kind)


def refuse(case, ctx):
    case = copy.deepcopy(case)
    ac = case['aircraft']
    sim.run_case(ctx, ac, upto='lattice')                  # valid before
    what = mutate(case)
    ctx.label(case['kind'])
    d = sim.fresh_dir(ctx, 'q')
    f = sim.write_project(d, ac)
    try:
        r = sim.standard_run(f)
    except Exception:
        return
    require(False, f'an aircraft with {what} was analysed (lift {r["vlmdata"].forces["L"]})')


SUBS = [
    Sub('measures', measure_cases(), measures, 600, 15000, 'several wings or segments'),
    Sub('auto', auto_cases(), auto, 600, 15000, 'at least one automatic number of panels'),
    Sub('refuse', bad_cases(), refuse, 1500, 30000, 'every case is a distinct faulty file'),
]
