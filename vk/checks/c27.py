"""Segments given by chords, angles and a reference point are the segments these parameters describe."""
import copy
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks.c22 import same, foil
from vk.core import Sub, Skip, require, close

COMBOS = ('a', 'b', 'c', 'd', 'ad', 'bc')
INNER = ('inner_chord', 'inner_alpha', 'inner_beta')
OUTER = ('outer_chord', 'outer_alpha', 'outer_beta')
NEED = INNER + OUTER + ('span', 'sweep', 'dihedral')


# ----- reference: what the parameters mean -----

def chord_vector(chord, alpha, beta):
    """Edge from its leading to its trailing end: incidence raises the leading end, yaw turns it to the left"""
    v = np.array([math.cos(math.radians(beta)), -math.sin(math.radians(beta)), 0.0])
    v[2] = -v[0]*math.tan(math.radians(alpha))
    return chord*v/np.linalg.norm(v)


def corners(g, ref, at):
    """a, b, c, d of the segment with parameters g whose corner `ref` is the point `at`"""
    ad = chord_vector(g['inner_chord'], g['inner_alpha'], g['inner_beta'])
    bc = chord_vector(g['outer_chord'], g['outer_alpha'], g['outer_beta'])
    shift = g.get('outer_axis', 0.25)*bc - g.get('inner_axis', 0.25)*ad
    # the axis points are (y, z) = t (cos, sin)(dihedral) apart, the leading ends are `span` apart
    u = np.array([math.cos(math.radians(g['dihedral'])), math.sin(math.radians(g['dihedral']))])
    s = shift[1:]
    t = u @ s + math.sqrt(max(g['span']**2 - s @ s + (u @ s)**2, 0.0))
    y, z = t*u - s
    ab = np.array([g['span']*math.tan(math.radians(g['sweep'])), y, z])
    p = dict(a=np.zeros(3), b=ab, c=ab + bc, d=ad)
    off = np.asarray(at, float) - p[ref]
    return {k: v + off for k, v in p.items()}, np.linalg.norm(s)/g['span']


def measured(v):
    """Parameters of a segment with known corners"""
    a, b, c, d = (np.asarray(v[k], float) for k in 'abcd')
    out = {}
    for n, e in (('inner', d - a), ('outer', c - b)):
        out[n + '_chord'] = np.linalg.norm(e)
        out[n + '_alpha'] = math.degrees(math.atan2(-e[2], e[0]))
        out[n + '_beta'] = math.degrees(math.atan2(-e[1], e[0]))
    out['span'] = math.hypot(*(b - a)[1:])
    out['sweep'] = math.degrees(math.atan2(b[0] - a[0], out['span']))
    q = (b + 0.25*(c - b)) - (a + 0.25*(d - a))
    out['dihedral'] = math.degrees(math.atan2(q[2], q[1]))
    return out


# ----- generators -----

@st.composite
def params(draw, dihedrals=None, calm=False):
    big = gen.tame(-8, 8, 0.5, (0.0, 0.0)) if calm else gen.tame(-35, 35, 0.1, (0.0,))
    g = dict(inner_chord=draw(gen.num(0.5, 3, 0.1)), inner_alpha=draw(big), inner_beta=draw(big),
             outer_chord=draw(gen.num(0.3, 3, 0.1)), outer_alpha=draw(big), outer_beta=draw(big),
             span=draw(gen.num(0.5, 5, 0.1)), sweep=draw(gen.tame(-50, 60, 0.5, (0.0,))),
             dihedral=draw(dihedrals or gen.tame(-80, 80, 0.5, (0.0, 90.0))))
    for k in ('inner_axis', 'outer_axis'):
        if draw(st.booleans()):
            g[k] = draw(gen.tame(0, 1, 0.01, (0.0, 1.0, 0.5)))
    return {k: float(v) for k, v in g.items()}


def written(g, combo, pts, extra=0):
    """The file entries for one of the accepted ways to define a segment"""
    g = dict(g)
    if combo == 'ad':
        for k in INNER:
            g.pop(k)
    if combo == 'bc':
        for k in OUTER:
            g.pop(k)
    if extra == 1:                        # entries which are not there may be written as null
        for k in NEED + ('inner_axis', 'outer_axis'):
            g.setdefault(k, None)
    vert = {k: [float(x) for x in pts[k]] for k in combo}
    if extra == 1:
        for k in 'abcd':
            vert.setdefault(k, None)
    return dict(vertices=vert, geometry=g)


@st.composite
def cases(draw):
    return dict(g=draw(params()), ref=draw(st.sampled_from('abcd')), at=[draw(gen.num(-5, 5, 0.1)) for _ in range(3)],
                combo=draw(st.sampled_from(COMBOS)), extra=draw(st.integers(0, 2)))


def one_segment(ctx, entry, name='p'):
    seg = dict(uid='s', airfoils=dict(inner='NACA0012', outer='NACA0012'), panels=dict(num_c=2, num_s=2))
    seg.update(entry)
    ac = dict(uid='ac', refs=dict(gcenter=[0, 0, 0], rcenter=[0, 0, 0], area=1.0, chord=1.0, span=1.0),
              wings=[dict(uid='w', symmetry=0, segments=[seg])])
    s, craft, _ = sim.load_project(sim.write_project(sim.fresh_dir(ctx, name), ac))
    return s, craft, craft.wings['w'].segments['s'], ac


def vertices(case, ctx):
    g = case['g']
    want, skew = corners(g, case['ref'], case['at'])
    if skew > 0.9:
        raise Skip('the twist moves the axis by more than the span')
    combo = case['combo']
    _, craft, S, _ = one_segment(ctx, written(g, combo, want, case['extra']))
    scale = 1 + max(np.abs(v).max() for v in want.values())
    for k in 'abcd':
        close(S.vertices[k], want[k], f'corner {k} (segment given by {combo} and parameters {g})', atol=1e-9*scale)
    W = craft.wings['w']
    area = 0.5*g['span']*(g['inner_chord'] + g['outer_chord'])
    close(W.span, g['span'], 'span', rtol=1e-9)
    close(W.area, area, 'area', rtol=1e-9)
    close(S.geometry['inner_chord'], g['inner_chord'], 'inner chord', rtol=1e-9)
    close(S.geometry['outer_chord'], g['outer_chord'], 'outer chord', rtol=1e-9)
    ctx.label('given by ' + combo)
    ctx.nontrivial(any(g[k] for k in ('inner_alpha', 'inner_beta', 'outer_alpha', 'outer_beta', 'dihedral', 'sweep')))


@st.composite
def measure_cases(draw):
    return dict(g=draw(params(gen.tame(-80, 80, 0.5, (0.0,)))), ref=draw(st.sampled_from('abcd')),
                at=[draw(gen.num(-5, 5, 0.1)) for _ in range(3)])


def measure(case, ctx):
    """A segment given by its four corners has the parameters of these corners; written back, they give the corners"""
    g = dict(case['g'], inner_axis=0.25, outer_axis=0.25)
    pts, skew = corners(g, case['ref'], case['at'])
    if skew > 0.9:
        raise Skip('the twist moves the axis by more than the span')
    _, _, S, _ = one_segment(ctx, dict(vertices={k: v.tolist() for k, v in pts.items()}))
    want = measured(pts)
    for k in NEED:
        close(want[k], g[k], f'reference: {k}', rtol=1e-7, atol=1e-7)
        close(S.geometry[k], want[k], f'{k} of a segment given by its corners', rtol=1e-8, atol=1e-7)
    # all four corners win over parameters which say something else
    other = {k: v + 1.0 for k, v in g.items() if k in NEED}
    _, _, S2, _ = one_segment(ctx, dict(vertices={k: v.tolist() for k, v in pts.items()}, geometry=other), 'q')
    for k in 'abcd':
        close(S2.vertices[k], pts[k], f'corner {k} given next to other parameters', rtol=0, atol=0)
    ctx.nontrivial(True)


# ----- whole aircraft -----

@st.composite
def aircraft_cases(draw):
    ac = draw(gen.aircraft(max_wings=2, max_segs=1, controls=0, max_c=3, max_s=3))
    how = []
    for n, w in enumerate(ac['wings']):
        segs, flat = [], w['symmetry'] != 3 and w['symmetry'] != 1
        nseg = draw(st.integers(1, 3))
        dih = gen.tame(-10, 30, 1, (0.0,))
        for k in range(nseg):
            g = draw(params(dih, calm=True))
            g['sweep'] = draw(gen.tame(-20, 40, 1, (0.0,)))
            if k:
                # the next segment starts where the last one ended
                for q in ('chord', 'alpha', 'beta'):
                    g['inner_' + q] = how[-1]['g']['outer_' + q]
            segs.append(copy.deepcopy(w['segments'][0]))
            segs[-1]['uid'] = f'w{n}_s{k}'
            how.append(dict(wing=n, g=g, combo=draw(st.sampled_from(COMBOS)), extra=draw(st.integers(0, 2))))
            foils = [draw(gen.naca()) for _ in range(2)]
            segs[-1]['airfoils'] = dict(inner=foils[0], outer=foils[1])
            segs[-1]['panels'] = dict(num_c=draw(st.integers(1, 3)), num_s=draw(st.integers(1, 3)))
        w['segments'] = segs
        ctl = draw(gen.control_list(w['uid'], segs, 2, w['symmetry'], 3, ('flap', 'slat')))
        if ctl:
            w['controls'] = ctl
    return dict(aircraft=ac, how=how, aero=draw(gen.aero()))


def analysis(case, ctx):
    by_corners = copy.deepcopy(case['aircraft'])
    by_params = copy.deepcopy(case['aircraft'])
    how = list(case['how'])
    for w1, w2 in zip(by_corners['wings'], by_params['wings']):
        at = w1['segments'][0]['vertices']['a']
        for s1, s2 in zip(w1['segments'], w2['segments']):
            h = how.pop(0)
            pts, skew = corners(h['g'], 'a', at)
            if skew > 0.5:
                raise Skip('the twist moves the axis by a large part of the span')
            s1['vertices'] = {k: v.tolist() for k, v in pts.items()}
            s2.update(written(h['g'], h['combo'], pts, h['extra']))
            at = pts['b']
            ctx.label('given by ' + h['combo'])
    gen.describe(by_corners, ctx)
    r1 = sim.run_case(ctx, by_corners, case['aero'])
    r2 = sim.run_case(ctx, by_params, case['aero'], name='q')
    same(ctx, r1, r2, 'segments given by parameters', foil_tol=foil(by_corners))
    # saving writes a file that describes the same aircraft again
    import pytornado.fileio as io
    s, craft, _ = sim.load_project(sim.write_project(sim.fresh_dir(ctx, 's'), by_params, case['aero']))
    io.native.aircraft.save(craft, s)
    again = io.native.aircraft.load(s)
    for w in by_corners['wings']:
        for seg in w['segments']:
            for k in 'abcd':
                p = seg['vertices'][k]
                close(again.wings[w['uid']].segments[seg['uid']].vertices[k], p, f"corner {k} of {seg['uid']} after saving",
                      atol=1e-9*(1 + np.abs(p).max()))


# ----- definitions which are not complete -----

@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(['parameter', 'parameter', 'corners', 'no corner', 'corner only', 'range']))
    return dict(g=draw(params(gen.tame(-60, 60, 1, (0.0,)), calm=True)), at=[draw(gen.num(-5, 5, 0.1)) for _ in range(3)],
                combo=draw(st.sampled_from(COMBOS)), kind=kind, pick=draw(st.integers(0, 50)),
                how=draw(st.sampled_from(['missing', 'null'])))


def refuse(case, ctx):
    g, combo, pick = case['g'], case['combo'], case['pick']
    pts, skew = corners(g, 'a', case['at'])
    if skew > 0.5:
        raise Skip('the twist moves the axis by a large part of the span')
    entry = written(g, combo, pts)
    one_segment(ctx, entry)                                 # complete definition
    kind = case['kind']
    bad = copy.deepcopy(entry)
    if kind == 'parameter':
        need = [k for k in NEED if k in entry['geometry']]
        k = need[pick % len(need)]
        bad['geometry'].pop(k)
        if case['how'] == 'null':
            bad['geometry'][k] = None
        what = f'corner(s) {combo} without {k}'
    elif kind == 'corners':
        sets = ['ab', 'ac', 'bd', 'cd', 'abc', 'abd', 'acd', 'bcd']
        v = sets[pick % len(sets)]
        bad = written(g, 'a', pts)
        bad['vertices'] = {k: pts[k].tolist() for k in v}
        what = f'corners {v} only'
        if pick % 2:
            bad.pop('geometry')
            what += ' and no parameters'
    elif kind == 'no corner':
        bad = written(g, 'a', pts)
        bad['vertices'] = {} if case['how'] == 'missing' else {k: None for k in 'abcd'}
        what = 'parameters but no corner'
    elif kind == 'corner only':
        bad.pop('geometry')
        what = f'corner(s) {combo} and no parameters'
    else:
        k = [q for q in ('inner_alpha', 'outer_alpha', 'inner_beta', 'outer_beta', 'sweep') if q in entry['geometry']]
        k = k[pick % len(k)]
        bad['geometry'][k] = (90.0 + 0.5*(1 + pick))*(-1)**pick
        what = f"{k} = {bad['geometry'][k]}"
    ctx.label(kind)
    ctx.nontrivial(True)
    try:
        _, _, S, _ = one_segment(ctx, bad, 'q')
    except Exception:
        return
    require(False, f'a segment given by {what} was accepted: {S.vertices}')


SUBS = [
    Sub('vertices', cases(), vertices, 1500, 40000, 'an angle is not zero'),
    Sub('measure', measure_cases(), measure, 500, 10000, 'every case'),
    Sub('analysis', aircraft_cases(), analysis, 500, 10000, 'circulation is not zero'),
    Sub('refuse', bad_cases(), refuse, 600, 12000, 'every case is a distinct faulty definition'),
]
