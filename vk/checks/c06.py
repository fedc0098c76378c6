"""Control surfaces are meshed exactly where the aircraft file puts them."""
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, mesh, ctl
from vk.checks import c09
from vk.core import Sub, require, close


@st.composite
def cases(draw, planar=True):
    return dict(aircraft=draw(gen.aircraft(max_wings=2, max_segs=3, controls=5, planar=planar, max_c=4, max_s=7,
                                           symmetries=(0, 2, 0, 2, 1, 3))))


def footprint(case, ctx):
    ac = case['aircraft']
    lat = sim.run_case(ctx, ac, upto='lattice').lat
    parts = mesh.parts(ac, lat)
    gen.describe(ac, ctx)
    nctl = 0
    for w in ac['wings']:
        exp = {}
        for c in w.get('controls', []):
            for row in ctl.spans(w, c):
                exp.setdefault(row[0], []).append((c, row))
        for k, s in enumerate(w['segments']):
            planar = ctl.is_planar(s)
            for m in ((False, True) if w['symmetry'] else (False,)):
                part = parts[(w['uid'], s['uid'], m)]
                strips = mesh.check_tiling(part, lat)
                where = mesh.where(part)
                want_all = exp.get(k, [])
                for c, (_, ea, eb, xa, xb, _, _) in want_all:
                    for e in (ea, eb):
                        require(min(abs(e - t) for st_ in strips for t in st_[:2]) < 2e-6,
                                f"{where}: no mesh line at the edge eta = {e} of control {c['uid']}")
                prev = None
                for e0, e1, quads, names, _ in strips:
                    mid = 0.5*(e0 + e1)
                    here = {c['uid']: (c, row) for c, row in want_all if row[1] < mid < row[2]}
                    got = set(n for n in names if n is not None)
                    require(got == set(here), f'{where}: controls {sorted(got)} at eta {e0:.4f}..{e1:.4f}, '
                                              f'expected {sorted(here)}')
                    require(None in names, f'{where}: no fixed part left at eta {e0:.4f}')
                    for uid, (c, (_, ea, eb, xa, xb, _, _)) in here.items():
                        nctl += 1
                        idx = [i for i, n in enumerate(names) if n == uid]
                        x = quads[idx][:, :, 1]
                        flap = c['device_type'] == 'flap'
                        edge = (x[:, 0].min(), x[:, 1].min()) if flap else (x[:, 3].max(), x[:, 2].max())
                        rim = (x[:, 3].max(), x[:, 2].max()) if flap else (x[:, 0].min(), x[:, 1].min())
                        close(rim, [1.0, 1.0] if flap else [0.0, 0.0], f'{where}: outer rim of {uid}', atol=1e-6)
                        if planar:
                            want = [ctl.straight(s, ea, xa, eb, xb, e) for e in (e0, e1)]
                            close(edge, want, f"{where}: edge of {c['device_type']} {uid} at eta {e0:.4f}, {e1:.4f}", atol=3e-6)
                        else:
                            for e, g in ((e0, edge[0]), (e1, edge[1])):
                                lin = xa + (xb - xa)*(e - ea)/(eb - ea)
                                exact = min(abs(e - ea), abs(e - eb)) < 2e-6
                                close(g, lin, f"{where}: edge of {c['device_type']} {uid} at eta {e:.4f}",
                                      atol=3e-6 if exact else 0.15)
                    if prev is not None:
                        # watertight across strips: a device continuing across a mesh line continues without a step
                        for uid in set(prev) & set(here):
                            c = here[uid][0]
                            pi = [i for i, n in enumerate(pnames) if n == uid]
                            ni = [i for i, n in enumerate(names) if n == uid]
                            if c['device_type'] == 'flap':
                                u, v = pquads[pi][:, 1, 1].min(), quads[ni][:, 0, 1].min()
                            else:
                                u, v = pquads[pi][:, 2, 1].max(), quads[ni][:, 3, 1].max()
                            close(v, u, f'{where}: {uid} has a step at eta {e0:.4f}', atol=3e-6)
                    prev, pnames, pquads = here, names, quads
    ctx.nontrivial(nctl > 0)


OFF = [0.0, 0.0, 1e-12, -1e-12, 2e-16, 0.0005, 0.001, -0.001, 0.004, -0.004, 0.0075, -0.0075, 0.0099, -0.0099]


@st.composite
def near_cases(draw):
    """Edges of control surfaces which nearly coincide (or differ by rounding errors only)"""
    ac = draw(gen.aircraft(max_wings=1, max_segs=2, controls=0, planar=True, max_c=2, max_s=4, symmetries=(0, 0, 2)))
    w = ac['wings'][0]
    nseg = len(w['segments'])
    base = sorted(draw(st.lists(st.sampled_from([k + e for k in range(nseg) for e in (0.1, 0.3, 0.5, 0.6, 0.7, 0.9)]),
                                min_size=2, max_size=4, unique=True)))
    base = [0.0] + base + ([1.0] if nseg == 2 and draw(st.booleans()) else []) + [float(nseg)]
    base = sorted(set(base))
    controls = []
    n = draw(st.integers(2, 5))
    used = dict(flap=[], slat=[])
    for i in range(n):
        typ = draw(st.sampled_from(['flap', 'slat']))
        free = [(u, v) for u in range(len(base) - 1) for v in range(u + 1, len(base))
                if all(v <= x or u >= y for x, y in used[typ])]
        if not free:
            continue
        ia, ib = draw(st.sampled_from(free))
        used[typ].append((ia, ib))

        def edge(t, other):
            if t in (0.0, nseg):
                return t
            e = t + draw(st.sampled_from(OFF))
            # devices of the same type may touch, but overlap by rounding errors at most
            return e
        ta, tb = edge(base[ia], 0), edge(base[ib], 0)
        if draw(st.integers(0, 9)) == 9 and ia + 1 < len(base):
            tb = ta + draw(st.sampled_from([0.003, 0.008, 0.02]))
        ka = min(int(math.floor(ta + 1e-9)), nseg - 1)
        kb = max(ka, int(math.ceil(tb - 1e-9)) - 1)
        ea, eb = min(max(ta - ka, 0.0), 1.0), min(max(tb - kb, 0.0), 1.0)
        lo, hi = (0.55, 0.9) if typ == 'flap' else (0.05, 0.4)
        x1, x2 = draw(gen.num(lo, hi, 0.05)), draw(gen.num(lo, hi, 0.05))
        controls.append(dict(uid=f'c{i}', device_type=typ, deflection=draw(st.sampled_from([0.0, 10.0])),
                             segment_uid=dict(inner=w['segments'][ka]['uid'], outer=w['segments'][kb]['uid']),
                             rel_vertices=dict(eta_inner=ea, xsi_inner=x1, eta_outer=eb, xsi_outer=x2),
                             rel_hinge_vertices=dict(xsi_inner=x1, xsi_outer=x2), panels=dict(num_c=1), _t=[ta, tb]))
    # same type: no real overlap
    out = []
    for c in controls:
        if all(c['_t'][1] <= d['_t'][0] + 3e-12 or c['_t'][0] >= d['_t'][1] - 3e-12
               for d in out if d['device_type'] == c['device_type']):
            out.append(c)
    for c in out:
        del c['_t']
    w['controls'] = out
    return dict(aircraft=ac)


def near(case, ctx):
    """
    However close the edges of other devices are, every device covers exactly its own span; edges which are equal up
    to rounding are one mesh line.
    """
    ac = case['aircraft']
    r = sim.run_case(ctx, ac)
    lat = r.lat
    require(bool(np.isfinite(np.asarray(r.data.panelwise['gamma'])).all()), 'non-finite circulation')
    TOL = 2e-6
    w = ac['wings'][0]
    rows = [(c, row) for c in w['controls'] for row in ctl.spans(w, c)]
    ctx.label(f"{len(w['controls'])} devices")
    for part in mesh.parts(ac, lat).values():
        k = [s['uid'] for s in w['segments']].index(part.seg['uid'])
        strips = mesh.check_tiling(part, lat)
        where = mesh.where(part)
        for e0, e1, quads, names, _ in strips:
            require(e1 - e0 > 1e-7, f'{where}: strip without width at eta {e0}')
        for c, (kk, ea, eb, xa, xb, _, _) in rows:
            if kk != k:
                continue
            mine = [s for s in strips if c['uid'] in s[3]]
            if eb - ea < 1e-9:
                require(not mine, f"{where}: {c['uid']} covers a part it only touches")
                continue
            require(mine, f"{where}: control {c['uid']} is not meshed (eta {ea}..{eb})")
            lo, hi = mine[0][0], mine[-1][1]
            require(abs(lo - ea) < TOL and abs(hi - eb) < TOL,
                    f"{where}: control {c['uid']} is meshed from eta {lo:.4f} to {hi:.4f} instead of {ea} to {eb}")
            for s, t in zip(mine, mine[1:]):
                require(abs(s[1] - t[0]) < 2e-6, f"{where}: control {c['uid']} has a gap at eta {s[1]:.4f}")
            if eb - ea > 0.05:
                flap = c['device_type'] == 'flap'
                slack = 1e-5 + 3*TOL*abs(xb - xa)/(eb - ea)
                for e0, e1, quads, names, _ in mine:
                    x = quads[[i for i, n in enumerate(names) if n == c['uid']]][:, :, 1]
                    edge = (x[:, 0].min(), x[:, 1].min()) if flap else (x[:, 3].max(), x[:, 2].max())
                    for e, g in ((e0, edge[0]), (e1, edge[1])):
                        want = ctl.straight(part.seg, ea, xa, eb, xb, min(max(e, ea), eb))
                        close(g, want, f"{where}: edge of {c['uid']} at eta {e:.4f}", atol=slack)
    ends = sorted(e + 10*k for c, (k, ea, eb, *_) in rows for e in (ea, eb))
    ctx.nontrivial(any(0 < v - u < 0.02 for u, v in zip(ends, ends[1:])))


def hinge(case, ctx):
    """The axis a deflected device turns about is the straight hinge line through the points given for it"""
    for w in case['aircraft']['wings']:
        for c in w.get('controls', []):
            c['deflection'] = c['deflection'] or 12.0
    c09.deflection(dict(case, aero=sim.AERO0), ctx)


SUBS = [
    Sub('planar', cases(), footprint, 1500, 30000, 'at least one strip carries a control surface'),
    Sub('hinge', cases(), hinge, 500, 10000, 'at least one panel of a deflected control'),
    Sub('near', near_cases(), near, 400, 8000, 'two edges of control surfaces which differ by less than 2 % of the segment'),
    Sub('twisted', cases(planar=False), footprint, 500, 10000, 'at least one strip carries a control surface'),
]
