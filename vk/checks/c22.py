"""The same aircraft, written differently, gives the same panels and the same loads."""
import copy
import numpy as np
from hypothesis import strategies as st

from vk import ctl, gen, sim, trans
from vk.core import Sub, Skip, require, close

NAMES = ['A', 'B', 'main wing', 'Flügel', 'w', 'wing_m', 'wing', '0', '1', 'a.b/c', 'uid', 'segment', 'flap', 'slat', 'x'*60, '{}', '%s', "it's"]


def match(p1, p2, what):
    """Pairs the panels of two lattices by their corners (as sets); index into the second"""
    n = len(p1)
    require(len(p2) == n, f'{what}: {len(p2)} panels instead of {n}')
    scale = 1 + np.abs(p1).max()
    c1, c2 = p1.mean(axis=1), p2.mean(axis=1)
    d = np.linalg.norm(c1[:, None] - c2[None], axis=2)
    j = d.argmin(axis=1)
    require(len(set(j.tolist())) == n, f'{what}: the panels are not the same')
    close(p2[j], p1, f'{what}: panel corners', atol=1e-9*scale)
    return j


def same(ctx, r1, r2, what, foil_tol=0.0):
    if len(r1.lat.p) != len(r2.lat.p) and trans.undecided(r1.input, r1.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    j = match(np.asarray(r1.lat.p), np.asarray(r2.lat.p), what)
    close(np.asarray(r2.lat.n)[j], r1.lat.n, f'{what}: normals', atol=1e-9 + foil_tol)
    close(np.asarray(r2.lat.a)[j], r1.lat.a, f'{what}: areas', rtol=1e-9)
    close(np.asarray(r2.lat.c)[j], r1.lat.c, f'{what}: control points', atol=1e-9*(1 + np.abs(r1.lat.c).max()))
    close(np.asarray(r2.lat.v)[j], r1.lat.v, f'{what}: vortices', atol=1e-8*(1 + np.abs(r1.lat.v).max()))
    tol, F0, M0, cond = trans.tolerances(r1)
    if not cond < 1e6:
        raise Skip('ill-conditioned system')
    e = trans.effect(r1, np.linalg.norm(np.asarray(r2.lat.n)[j] - np.asarray(r1.lat.n), axis=1), r2, j)
    if e['big']:
        raise Skip('too sensitive')
    g = np.abs(r1.data.panelwise['gamma']).max()
    a = r1.cur.aero
    V = a['airspeed'] + 10*sum(abs(a[k]) for k in ('rate_P', 'rate_Q', 'rate_R'))
    q = 0.5*a['density']*a['airspeed']**2
    bound = dict(gamma=e['gamma'], vx=e['v'], fx=e['f'], cp=1.1*e['f']/(q*np.asarray(r1.lat.a)) + 2*np.abs(r1.data.panelwise['cp'])*foil_tol)
    floor = dict(gamma=V, vx=V, fx=a['density']*V*V*np.max(r1.lat.a), cp=1.0)
    for group in (('gamma',), ('vx', 'vy', 'vz'), ('fx', 'fy', 'fz'), ('cp',)):
        top = max(np.abs(r1.data.panelwise[k]).max() for k in group)
        for k in group:
            v1, v2 = np.asarray(r1.data.panelwise[k]), np.asarray(r2.data.panelwise[k])[j]
            close(v2, v1, f'{what}: {k} of a panel', rtol=0, atol=100*tol*(top + 1e-2*floor[group[0]]) + bound[group[0]])
    for a, b in zip(trans.loads(r1.data), trans.loads(r2.data)):
        close(b, a, f'{what}: loads', rtol=0, atol=tol*max(F0, M0) + max(e['F'], e['M']))
    for k in r1.data.coeffs:
        q = 0.5*r1.cur.aero['density']*r1.cur.aero['airspeed']**2
        R = r1.aircraft.refs
        close(r2.data.coeffs[k], r1.data.coeffs[k], f'{what}: coefficient {k}', rtol=0,
              atol=(tol*M0 + max(e['F'], e['M']))/(q*R['area']*min(R['chord'], R['span'], 1)))
    ctx.nontrivial(g > 0)


def foil(ac):
    # the camber tables of the airfoil library are piecewise: rounding decides at their break points
    return 3e-4 if gen.cambered(ac) else 0.0


# ----- names and order -----

WORDS = ['wing', 'main', 'tail', 'mirror', 'left', 'right', 'inner', 'outer', 'm', 'M', 'a', 'A', 'flap', 'slat', 'aileron', 'control',
         'segment', 'deformed', 'None', '1', '01', 'é', 'WingMain', 'root', 'tip', 'vtp', 'htp', 'fuselage', 'copy', 'sym']


@st.composite
def name_pool(draw):
    """Distinct names, many of them made of the same words"""
    sep = draw(st.sampled_from(['_', '', ' ', '-', '.', '/']))
    words = draw(st.lists(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map(sep.join), min_size=len(NAMES), max_size=len(NAMES),
                          unique=True))
    pre, suf = '', ''
    if draw(st.booleans()):
        suf = draw(st.sampled_from(['_m', '_mirror', '_left', '_right', '_L', '_R', '_mirrored', '_sym', '_1', '_deformed', 'm', 'mirror', ' copy']))
    elif draw(st.booleans()):
        pre = draw(st.sampled_from(['_', '__', 'm_', 'mirror_', 'left_', 'NACA', 'wing']))
    return [pre + x + suf for x in words] if draw(st.integers(0, 3)) else list(NAMES)

@st.composite
def order_cases(draw):
    ac = draw(gen.aircraft(max_wings=3, controls=3, max_c=4, max_s=4))
    new = copy.deepcopy(ac)
    shuffle = lambda seq: list(draw(st.permutations(seq)))
    names = draw(name_pool())
    uids = shuffle(names)
    new['uid'] = draw(st.sampled_from(names))
    for k, w in enumerate(new['wings']):
        w['uid'] = uids[k]
        segs = shuffle(names)
        ren = {}
        for i, s in enumerate(w['segments']):
            ren[s['uid']] = segs[i]
            s['uid'] = segs[i]
        cs = shuffle(names)
        for i, c in enumerate(w.get('controls', [])):
            c['uid'] = cs[i]
            c['segment_uid'] = {a: ren[b] for a, b in c['segment_uid'].items()}
        # on twisted segments edges and hinge lines of strips are interpolated between those made before
        if w.get('controls') and all(ctl.is_planar(s) for s in w['segments']):
            w['controls'] = shuffle(w['controls'])
    new['wings'] = shuffle(new['wings'])

    def keys(x):
        if isinstance(x, dict):
            return {k: keys(x[k]) for k in shuffle(sorted(x))}
        if isinstance(x, list):
            return [keys(y) for y in x]
        return x
    if draw(st.booleans()):
        new = keys(new)
    return dict(aircraft=ac, other=new, aero=draw(gen.aero()))


def order(case, ctx):
    r1 = sim.run_case(ctx, case['aircraft'], case['aero'])
    r2 = sim.run_case(ctx, case['other'], case['aero'], name='q')
    gen.describe(case['aircraft'], ctx)
    same(ctx, r1, r2, 'renamed and reordered', foil_tol=foil(case['aircraft']))


# ----- spelling of values -----

def whole(x):
    """integers instead of whole floats, where the format takes both"""
    if isinstance(x, list):
        return [whole(y) for y in x]
    return int(x) if isinstance(x, float) and x.is_integer() else x


@st.composite
def spelling_cases(draw):
    ac = draw(gen.aircraft(max_wings=2, controls=2, max_c=4, max_s=4))
    how = draw(st.lists(st.sampled_from(['ints', 'case', 'mirror', 'null panels', 'auto', 'derived', 'no controls']), min_size=1,
                        max_size=4, unique=True))
    return dict(aircraft=ac, how=how, aero=draw(gen.aero()))


def spelling(case, ctx):
    ac, how = case['aircraft'], case['how']
    settings = sim.make_settings()
    ac = copy.deepcopy(ac)
    if 'auto' in how:
        # the same chordwise number for everything, given in the settings instead
        for w in ac['wings']:
            for s in w['segments']:
                s['panels']['num_c'] = 3
            for c in w.get('controls', []):
                c['panels']['num_c'] = 3
    new = copy.deepcopy(ac)
    if 'auto' in how:
        for w in new['wings']:
            for s in w['segments']:
                del s['panels']['num_c']
            for c in w.get('controls', []):
                c['panels'] = {}
    if 'ints' in how:
        for k in ('gcenter', 'rcenter', 'area', 'chord', 'span'):
            new['refs'][k] = whole(new['refs'][k])
        for w in new['wings']:
            for s in w['segments']:
                s['vertices'] = {k: whole(v) for k, v in s['vertices'].items()}
            for c in w.get('controls', []):
                c['deflection'] = whole(c['deflection'])
    for w in new['wings']:
        if 'no controls' in how and not w.get('controls'):
            w.pop('controls', None)
        for s in w['segments']:
            if 'case' in how:
                s['airfoils'] = {k: v.lower() if v[0] == 'N' else v.upper() for k, v in s['airfoils'].items()}
            if 'null panels' in how and 'panels' in s and 'num_c' not in s['panels']:
                s['panels']['num_c'] = None
            if 'derived' in how:
                s['geometry'] = {k: None for k in ('inner_chord', 'outer_chord', 'span', 'sweep')}
        for c in w.get('controls', []):
            if 'mirror' in how:
                if w['symmetry']:
                    # without an entry of its own the mirrored side follows
                    c.setdefault('deflection_mirror', c['deflection'])
                else:
                    c['deflection_mirror'] = None
    r1 = sim.run_case(ctx, ac, case['aero'], settings=settings)
    r2 = sim.run_case(ctx, new, case['aero'], settings=settings, name='q')
    ctx.label(*how)
    same(ctx, r1, r2, 'other spelling (' + ', '.join(how) + ')')
    ctx.nontrivial(new != ac)


# ----- one wing written as two -----

@st.composite
def cut_cases(draw):
    ac = draw(gen.aircraft(max_wings=2, max_segs=3, controls=2, max_c=4, max_s=4))
    return dict(aircraft=ac, cut=draw(st.lists(st.integers(0, 10), min_size=2, max_size=2)), aero=draw(gen.aero()))


def cut(case, ctx):
    ac = copy.deepcopy(case['aircraft'])
    wings = []
    did = False
    for w, k in zip(ac['wings'], case['cut']):
        n = len(w['segments'])
        cuts = [i for i in range(1, n)]
        uid = [s['uid'] for s in w['segments']]
        loc = lambda c: (uid.index(c['segment_uid']['inner']), uid.index(c['segment_uid']['outer']))
        cuts = [i for i in cuts if not any(loc(c)[0] < i <= loc(c)[1] for c in w.get('controls', []))]
        if not cuts:
            wings.append(w)
            continue
        i = cuts[k % len(cuts)]
        a, b = copy.deepcopy(w), copy.deepcopy(w)
        b['uid'] += '_outer'
        a['segments'], b['segments'] = a['segments'][:i], b['segments'][i:]
        if 'controls' in w:
            a['controls'] = [c for c in w['controls'] if loc(c)[1] < i]
            b['controls'] = [c for c in w['controls'] if loc(c)[0] >= i]
        wings += [a, b]
        did = True
    if not did:
        raise Skip('no wing can be cut')
    ac['wings'] = wings
    r1 = sim.run_case(ctx, case['aircraft'], case['aero'])
    r2 = sim.run_case(ctx, ac, case['aero'], name='q')
    gen.describe(ac, ctx)
    same(ctx, r1, r2, 'one wing written as two', foil_tol=foil(ac))


# ----- the other half -----

@st.composite
def half_cases(draw):
    ac = draw(gen.aircraft(big=True, max_wings=2, controls=3, max_c=4, max_s=4, symmetries=(2, 2, 2, 2, 0), planar=draw(st.sampled_from([True, True, None])),
                           simple_airfoil=draw(st.sampled_from([True, None]))))
    return dict(aircraft=ac, turn=[draw(st.integers(0, 5)) > 0 for _ in ac['wings']], aero=draw(gen.aero()))


def half(case, ctx):
    ac, aero = case['aircraft'], case['aero']
    turn = [t and w['symmetry'] == 2 for t, w in zip(case['turn'], ac['wings'])]
    if not any(turn):
        raise Skip('no wing to describe by its other half')
    if trans.near_lines(ac):
        raise Skip('control edge and regular division nearly coincide')
    new = copy.deepcopy(ac)
    new['wings'] = [trans.other_half(w) if t else w for w, t in zip(new['wings'], turn)]
    r = sim.run_case(ctx, ac, aero)
    tol, F0, M0, cond = trans.tolerances(r)
    if not cond < 1e6:
        raise Skip('ill-conditioned system')
    r2 = sim.run_case(ctx, new, aero, name='q')
    j = trans.pair(r, r2, 'other half')
    tw = any(not ctl.is_planar(s) for w in ac['wings'] if w.get('controls') for s in w['segments'])
    if j is None and tw:
        raise Skip('controls on twisted segments divide the other half differently')
    if j is None and trans.undecided(ac, r.lat):
        raise Skip('rounding decides about a number of chordwise panels')
    require(j is not None, 'described by its left half: the mesh is another one')
    dn = trans.normals_apart(r, r2, j)
    if tw and dn.max() > 1e-2:
        raise Skip('hinge lines on twisted segments depend on the direction')
    if not tw:
        close(dn, 0*dn, 'described by its left half: normals', atol=3e-4 if gen.cambered(ac) else 1e-7)
    e = trans.effect(r, dn, r2, j)
    if e['big']:
        raise Skip('too sensitive')
    g, g2 = np.asarray(r.data.panelwise['gamma']), np.asarray(r2.data.panelwise['gamma'])[j]
    V = aero['airspeed'] + 10*sum(abs(aero[k]) for k in ('rate_P', 'rate_Q', 'rate_R'))
    close(np.abs(g2), np.abs(g), 'described by its left half: circulation', rtol=0,
          atol=10*tol*(np.abs(g).max() + V*np.sqrt(r.lat.a.max())) + e['gamma'])
    for a, b, s, x in zip(trans.loads(r.data), trans.loads(r2.data), (F0, M0, F0), 'FMF'):
        close(b, a, 'described by its left half: loads', rtol=0, atol=10*tol*s + e[x])
    gen.describe(ac, ctx)
    ctx.nontrivial(np.abs(g).max() > 0)


# ----- one segment written as two -----

@st.composite
def refine_cases(draw):
    ac = draw(gen.aircraft(max_wings=2, max_segs=2, controls=0, max_c=4, max_s=6, planar=True, same_foil=True))
    for w in ac['wings']:
        for s in w['segments']:
            s['panels']['num_s'] = draw(st.integers(2, 6))
    w = ac['wings'][draw(st.integers(0, len(ac['wings']) - 1))]
    i = draw(st.integers(0, len(w['segments']) - 1))
    s = w['segments'][i]
    k = draw(st.integers(1, s['panels']['num_s'] - 1))
    if draw(st.booleans()):
        # a device over the whole segment with constant relative chord
        typ = draw(st.sampled_from(['flap', 'slat']))
        x = draw(gen.num(0.6, 0.9, 0.01)) if typ == 'flap' else draw(gen.num(0.1, 0.4, 0.01))
        h = draw(gen.num(0.0, 1.0, 0.01))
        w['controls'] = [dict(uid='c', device_type=typ, deflection=float(draw(gen.num(-20, 20, 1))),
                              segment_uid=dict(inner=s['uid'], outer=s['uid']),
                              rel_vertices=dict(eta_inner=0.0, eta_outer=1.0, xsi_inner=x, xsi_outer=x),
                              rel_hinge_vertices=dict(xsi_inner=h, xsi_outer=h), panels=dict(num_c=draw(st.integers(1, 3))))]
    return dict(aircraft=ac, wing=w['uid'], seg=i, k=k, aero=draw(gen.aero()))


def refine(case, ctx):
    ac = copy.deepcopy(case['aircraft'])
    w = [w for w in ac['wings'] if w['uid'] == case['wing']][0]
    s = w['segments'][case['seg']]
    n, k = s['panels']['num_s'], case['k']
    f = k/n
    v = {q: np.array(p, float) for q, p in s['vertices'].items()}
    mab, mdc = v['a'] + f*(v['b'] - v['a']), v['d'] + f*(v['c'] - v['d'])
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    s2['uid'] += '_b'
    s1['vertices'].update(b=mab.tolist(), c=mdc.tolist())
    s2['vertices'].update(a=mab.tolist(), d=mdc.tolist())
    s1['panels']['num_s'], s2['panels']['num_s'] = k, n - k
    w['segments'][case['seg']:case['seg'] + 1] = [s1, s2]
    for c in w.get('controls', []):
        c['segment_uid']['outer'] = s2['uid']
    r1 = sim.run_case(ctx, case['aircraft'], case['aero'])
    r2 = sim.run_case(ctx, ac, case['aero'], name='q')
    gen.describe(ac, ctx)
    same(ctx, r1, r2, 'one segment written as two', foil_tol=foil(ac))


SUBS = [
    Sub('order', order_cases(), order, 700, 15000, 'non-zero circulation'),
    Sub('spelling', spelling_cases(), spelling, 500, 10000, 'the two files really differ'),
    Sub('cut', cut_cases(), cut, 600, 12000, 'a wing was cut and circulation is not zero'),
    Sub('half', half_cases(), half, 500, 10000, 'a symmetric wing was described by its other half, non-zero circulation'),
    Sub('refine', refine_cases(), refine, 600, 12000, 'non-zero circulation'),
]
