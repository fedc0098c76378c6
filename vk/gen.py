"""
Generators of input files (plain JSON values): aircraft with several wings,
segments, symmetries and control surfaces, flight states, settings.
"""
import math

from hypothesis import strategies as st

from vk.sim import make_settings


def num(lo, hi, step=0.01):
    """decimal numbers on a grid: shrink to the simplest value, print short"""
    assert step <= 1
    d = int(round(1/step))
    return st.integers(int(math.ceil(lo*d - 1e-9)), int(math.floor(hi*d + 1e-9))).map(lambda i: i/d)


def tame(lo, hi, step=0.01, special=()):
    base = num(lo, hi, step)
    return st.one_of(st.sampled_from(special), base) if special else base


@st.composite
def naca(draw, symmetric=None):
    if symmetric is True:
        return 'NACA00' + draw(st.sampled_from(['08', '10', '12', '15']))
    if symmetric is None and draw(st.booleans()):
        return 'NACA00' + draw(st.sampled_from(['08', '12']))
    m = draw(st.integers(1, 6))
    p = draw(st.integers(2, 6))
    return f"{draw(st.sampled_from(['NACA', 'naca', 'NACA']))}{m}{p}{draw(st.sampled_from(['06', '09', '12', '18']))}"


def add(p, q):
    return [round(a + b, 9) for a, b in zip(p, q)]


@st.composite
def wing(draw, uid, pos, symmetry, nseg, planar=False, simple_airfoil=None, controls=0, panels='explicit',
         max_c=4, max_s=3, twist=True, allow_vertical=True, ctl_types=('flap', 'slat'), same_foil=False,
         flat=False):
    """
    One wing entry.  pos: root leading edge point.  planar: every segment is a planar quadrilateral
    (all chords parallel to x).  flat: all segments share one plane.
    """
    if flat:
        dih = draw(st.sampled_from([0.0, 0.0, 5.0, -4.0, 30.0]))
    elif allow_vertical:
        dih = draw(st.sampled_from([0.0, 3.0, -6.0, 40.0, 90.0]))
    else:
        dih = draw(st.sampled_from([0.0, 3.0, -6.0, 30.0]))
    segs = []
    le = list(pos)
    c_in = draw(num(0.5, 3, 0.1))
    tw_in = 0.0 if (planar or not twist) else draw(tame(-8, 8, 1, (0.0,)))
    foil_in = draw(naca(simple_airfoil))
    for k in range(nseg):
        span = draw(num(0.5, 4, 0.1))
        c_out = draw(st.one_of(st.just(c_in), num(0.3, 3, 0.1)))
        tw_out = 0.0 if (planar or not twist) else draw(st.one_of(st.just(tw_in), num(-8, 8, 1)))
        sweep = draw(tame(-1.5, 2.5, 0.1, (0.0,)))
        dk = dih if flat else dih + draw(st.sampled_from([0.0, 0.0, 4.0, 12.0]))
        dy, dz = span*math.cos(math.radians(dk)), span*math.sin(math.radians(dk))
        a = le
        b = add(le, [sweep, dy, dz])
        # twist turns the chord about the leading edge, in the plane of x and the direction of lift
        ny, nz = -math.sin(math.radians(dk)), math.cos(math.radians(dk))

        def te(p, c, tw):
            t = math.radians(tw)
            return add(p, [c*math.cos(t), -c*math.sin(t)*ny, -c*math.sin(t)*nz])
        d, c = te(a, c_in, tw_in), te(b, c_out, tw_out)
        if segs:
            d = segs[-1]['vertices']['c']
        foil_out = foil_in if same_foil else draw(st.one_of(st.just(foil_in), naca(simple_airfoil)))
        seg = dict(uid=f'{uid}_s{k}', vertices=dict(a=a, b=b, c=c, d=d),
                   airfoils=dict(inner=foil_in, outer=foil_out))
        if panels == 'explicit':
            seg['panels'] = dict(num_c=draw(st.integers(1, max_c)), num_s=draw(st.integers(1, max_s)))
        elif panels == 'mixed':
            p = {}
            if draw(st.booleans()):
                p['num_c'] = draw(st.integers(1, max_c))
            if draw(st.booleans()):
                p['num_s'] = draw(st.integers(1, max_s))
            if p or draw(st.booleans()):
                seg['panels'] = p
        segs.append(seg)
        le, c_in, tw_in, foil_in = b, c_out, tw_out, foil_out
    entry = dict(uid=uid, symmetry=symmetry, segments=segs)
    ctl = draw(control_list(uid, segs, controls, symmetry, max_c, ctl_types)) if controls else []
    if ctl or draw(st.booleans()):
        entry['controls'] = ctl
    return entry


@st.composite
def control_list(draw, wuid, segs, nmax, symmetry, max_c, types, deflect=True, gap=0.05):
    """
    Controls of one wing: devices of one type do not overlap spanwise.  Breakpoints on one segment either coincide
    or are at least `gap` apart (also from the segment edges).
    """
    n = draw(st.integers(0, nmax))
    out = []
    nseg = len(segs)
    # break points per segment on a common coarse grid so that flap/slat edges interact but never nearly coincide
    grids = []
    for k in range(nseg):
        m = draw(st.integers(0, 5))
        pts = draw(st.lists(num(0.05, 0.95, 0.01), min_size=m, max_size=m))
        g = [0.0]
        for p in sorted(pts):
            if p - g[-1] >= gap:
                g.append(p)
        if 1 - g[-1] < gap:
            g.pop()
        if not g:
            g = [0.0]
        g.append(1.0)
        grids.append(g)
    line = [k + e for k in range(nseg) for e in grids[k][:-1]] + [nseg]
    used = {t: [] for t in types}
    many = nmax > 1 and draw(st.integers(0, 7)) == 7
    if many:
        n = draw(st.integers(3, 6))
    for i in range(n):
        typ = draw(st.sampled_from(types))
        free = [(u, v) for u in range(len(line) - 1) for v in range(u + 1, min(len(line) - 1, u + (1 if many else 4)) + 1)
                if all(v <= x or u >= y for x, y in used[typ])]
        if not free:
            continue
        ia, ib = draw(st.sampled_from(free))
        used[typ].append((ia, ib))
        ta, tb = line[ia], line[ib]
        ka = int(math.floor(ta))
        kb = int(math.ceil(tb)) - 1
        eta_a, eta_b = round(ta - ka, 6), round(tb - kb, 6)
        lo, hi = (0.55, 0.95) if typ == 'flap' else (0.05, 0.4)
        x1 = draw(num(lo, hi, 0.01))
        x2 = draw(st.one_of(st.just(x1), num(lo, hi, 0.01)))
        hinge = draw(st.sampled_from(['edge', 'own', 'zero']))
        if hinge == 'edge':
            h1, h2 = x1, x2
        elif hinge == 'own':
            h1, h2 = draw(num(0, 1, 0.01)), draw(num(0, 1, 0.01))
        else:
            h1 = h2 = draw(st.sampled_from([0.0, 0.5, 1.0]))
        c = dict(uid=f'{wuid}_c{i}', device_type=typ,
                 deflection=draw(tame(-30, 30, 1, (0.0, 10.0, -90.0, 90.0))) if deflect else 0.0,
                 segment_uid=dict(inner=segs[ka]['uid'], outer=segs[kb]['uid']),
                 rel_vertices=dict(eta_inner=float(eta_a), xsi_inner=x1, eta_outer=float(eta_b), xsi_outer=x2),
                 rel_hinge_vertices=dict(xsi_inner=float(h1), xsi_outer=float(h2)),
                 panels=dict(num_c=draw(st.integers(1, max_c))))
        if symmetry and draw(st.booleans()):
            c['deflection_mirror'] = draw(tame(-30, 30, 1, (0.0,))) if deflect else 0.0
        out.append(c)
    return out


@st.composite
def refs(draw, zero_ok=True):
    def pt():
        return draw(st.lists(num(-5, 8, 0.1), min_size=3, max_size=3)) if draw(st.booleans()) else [0.0, 0.0, 0.0]
    return dict(gcenter=pt(), rcenter=pt(), area=draw(num(0.5, 40, 0.1)), chord=draw(num(0.2, 5, 0.1)),
                span=draw(num(0.5, 20, 0.1)))


@st.composite
def aircraft(draw, max_wings=2, max_segs=3, symmetries=(0, 2, 1, 3), controls=2, planar=None, simple_airfoil=None,
             panels='explicit', max_c=4, max_s=3, twist=True, allow_vertical=True, same_foil=False,
             ctl_types=('flap', 'slat'), flat=False, centered=False, big=False):
    """An aircraft.  big: now and then a lattice of a few hundred panels."""
    nw = draw(st.integers(1, max_wings))
    many = draw(st.integers(0, 31))
    if many == 31 and max_wings > 1:
        # more than ten: their names are not in the order of the alphabet
        nw = draw(st.integers(3, 12))
        max_segs, controls, max_c, max_s = 1, min(controls, 1), min(max_c, 2), min(max_s, 2)
    lots = many == 30 and max_segs > 1
    if lots:
        nw, max_c, max_s = 1, min(max_c, 3), min(max_s, 2)
    wings = []
    for k in range(nw):
        sym = draw(st.sampled_from(symmetries))
        x = draw(num(-3, 3, 0.1)) + 9.0*k
        y = draw(tame(0, 2, 0.1, (0.0,)))
        z = draw(num(-1, 1, 0.1)) + 1.7*k + 0.23
        if sym == 1:
            z = abs(z) + 2.5
        if sym == 3:
            x = x + 8.0
        if sym == 2:
            # the two halves may touch at y = 0
            x, z = x, z
        if sym == 0 and draw(st.booleans()):
            y = y - 2.0
        if sym == 0 and centered:
            y = 0.0
        nseg = draw(st.integers(4, 12)) if lots and sym in (0, 2) else draw(st.integers(1, max_segs))
        pl = draw(st.booleans()) if planar is None else planar
        wings.append(draw(wing(f'w{k}', [round(x, 3), round(y, 3), round(z, 3)], sym, nseg, planar=pl,
                               simple_airfoil=simple_airfoil, controls=controls, panels=panels, max_c=max_c,
                               max_s=max_s, twist=twist, allow_vertical=allow_vertical and sym in (0, 3),
                               ctl_types=ctl_types, same_foil=same_foil, flat=flat)))
    if big and draw(st.integers(0, 11)) == 11:
        segs = draw(st.sampled_from(wings))['segments']
        seg = draw(st.sampled_from(segs))
        if 'panels' in seg:
            seg['panels'] = dict(num_c=draw(st.sampled_from([1, 3, 5, 9])), num_s=draw(st.sampled_from([13, 25, 38])))
    return dict(uid='ac', refs=draw(refs()), wings=wings)


@st.composite
def large(draw, lo=600, hi=1300, **kw):
    """An aircraft with a lattice of a size used in practice"""
    ac = draw(aircraft(max_segs=2, **kw))
    n = draw(st.integers(lo, hi))
    sides = sum(len(w['segments'])*(2 if w['symmetry'] else 1) for w in ac['wings'])
    for w in ac['wings']:
        for s in w['segments']:
            c = draw(st.sampled_from([2, 4, 7, 12, 20]))
            s['panels'] = dict(num_c=c, num_s=max(1, round(n/sides/c)))
    return ac


@st.composite
def aero(draw, rates=True, beta=True, amax=15, speed0=False):
    v = draw(tame(1, 250, 0.1, (100.0,) + ((0.0,) if speed0 else ())))
    d = dict(airspeed=float(v), density=draw(tame(0.05, 2, 0.001, (1.225,))),
             alpha=float(draw(tame(-amax, amax, 0.1, (0.0,)))),
             beta=float(draw(tame(-amax, amax, 0.1, (0.0,)))) if beta else 0.0,
             rate_P=0.0, rate_Q=0.0, rate_R=0.0)
    if rates and draw(st.booleans()):
        f = draw(st.sampled_from([1, 1, 1, 1e-2, 1e-4]))
        for k in ('rate_P', 'rate_Q', 'rate_R'):
            d[k] = float('%.9g' % (draw(tame(-3, 3, 0.01, (0.0,)))*f))
    if draw(st.integers(0, 7)) == 0:
        # small angles with many digits
        for k in ('alpha', 'beta'):
            d[k] = float('%.9g' % (d[k]*1.2345678e-3))
    return d


# ----- facts about a generated aircraft -----

def has_controls(ac):
    return any(w.get('controls') for w in ac['wings'])


def deflected(ac):
    return any(c['deflection'] or c.get('deflection_mirror') for w in ac['wings'] for c in w.get('controls', []))


def cambered(ac):
    return any(not f.upper().startswith('NACA00') for w in ac['wings'] for s in w['segments']
               for f in s['airfoils'].values())


def describe(ac, ctx):
    if len(ac['wings']) > 1:
        ctx.label('several wings')
    for w in ac['wings']:
        if w['symmetry']:
            ctx.label(f"symmetry {w['symmetry']}")
        if len(w['segments']) > 1:
            ctx.label('several segments')
        for c in w.get('controls', []):
            ctx.label(c['device_type'])
            if c['segment_uid']['inner'] != c['segment_uid']['outer']:
                ctx.label('control across segments')
    if cambered(ac):
        ctx.label('cambered')
    if deflected(ac):
        ctx.label('deflected')
