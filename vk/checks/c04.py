"""The lattice tiles every lifting surface exactly, on both sides, with the requested resolution."""
import math
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim, mesh, ctl
from vk.core import Sub, require, close


@st.composite
def cases(draw):
    return dict(aircraft=draw(gen.aircraft(max_wings=3, max_segs=3, controls=4, max_c=6, max_s=8)))


def tiling(case, ctx):
    ac = case['aircraft']
    r = sim.run_case(ctx, ac, upto='lattice')
    lat = r.lat
    n = len(lat.p)
    for k in ('p', 'v', 'c', 'n', 'a', 'bound_leg_midpoints'):
        require(len(getattr(lat, k)) == n, f'lattice.{k} has another length than the panel list')
        require(bool(np.isfinite(getattr(lat, k)).all()), f'lattice.{k} contains non-finite values')
    require(lat.info['num_panels'] == n, 'reported number of panels')
    require(lat.info['num_wings'] == len(ac['wings']), 'reported number of wings')
    require(lat.info['num_controls'] == sum(len(w.get('controls', [])) for w in ac['wings']), 'reported number of controls')
    parts = mesh.parts(ac, lat)
    ctlc = {c['uid']: c['panels']['num_c'] for w in ac['wings'] for c in w.get('controls', [])}
    total = 0
    gen.describe(ac, ctx)
    for key, part in parts.items():
        strips = mesh.check_tiling(part, lat)
        w = mesh.where(part)
        seg = part.seg
        if part.mirror:
            # leading edge first also on the mirrored side (all generated chords point downstream)
            idx = [i for rr in part.idx for i in rr]
            p = np.asarray(lat.p)[idx]
            require(bool((p[:, 0, 0] + p[:, 1, 0] < p[:, 2, 0] + p[:, 3, 0] + 1e-12).all()),
                    f'{w}: panels point upstream')
        # chordwise resolution
        nc, ns = seg['panels']['num_c'], seg['panels']['num_s']
        for e0, e1, quads, ctl, _ in strips:
            xs = quads[:, :, 1]
            for name in set(ctl):
                m = [k for k, c in enumerate(ctl) if c == name]
                if name is not None:
                    require(len(m) == ctlc[name], f'{w}: control {name} has {len(m)} chordwise panels, {ctlc[name]} requested')
                else:
                    rel = 0.5*(xs[m, 2].max() + xs[m, 3].max() - xs[m, 0].min() - xs[m, 1].min())
                    lo, hi = math.ceil(rel*nc - 1e-6), math.ceil(rel*nc + 1e-6)
                    require(lo <= len(m) <= hi, f'{w}: {len(m)} chordwise panels over {rel:.4f} of the chord, {nc} requested')
                # equal chordwise spacing within one device
                h = xs[m][:, [3, 2]] - xs[m][:, [0, 1]]
                close(h, np.tile(h.mean(axis=0), (len(m), 1)), f'{w}: chordwise spacing', atol=1e-7)
        # spanwise resolution: every requested line is there (or so close to another one that it was merged)
        lines = np.array([s[0] for s in strips] + [1.0])
        for e in np.linspace(0, 1, ns + 1):
            d = np.abs(lines - e).min()
            require(d <= 0.0101, f'{w}: no mesh line near eta = {e:.4f} ({ns} spanwise panels requested)')
        # vector area of the part equals that of the segment
        idx = [i for rr in part.idx for i in rr]
        p = np.asarray(lat.p)[idx]
        va = 0.5*np.cross(p[:, 2]-p[:, 0], p[:, 3]-p[:, 1]).sum(axis=0)
        q = mesh.seg_corners(seg)
        want = 0.5*np.cross(q[2]-q[0], q[3]-q[1])
        require(abs(np.linalg.norm(va) - np.linalg.norm(want)) <= 1e-8*np.linalg.norm(want) + 1e-9,
                f'{w}: panel areas add up to {np.linalg.norm(va)}, the segment has {np.linalg.norm(want)}')
        total += len(idx)
    require(total == n, 'panels outside any segment')
    ctx.nontrivial(n > 3 and (gen.has_controls(ac) or len(parts) > 1))


@st.composite
def fine_cases(draw):
    ac = draw(gen.aircraft(max_wings=1, max_segs=2, controls=1, max_c=2, max_s=3))
    for s in ac['wings'][0]['segments']:
        if draw(st.booleans()):
            s['panels'] = dict(num_c=1, num_s=draw(st.one_of(st.sampled_from([50, 64, 99, 100, 101, 128, 150, 200, 256, 300]),
                                                             st.integers(40, 260))))
    return dict(aircraft=ac)


def fine(case, ctx):
    """Meshes with many strips: every requested spanwise line is there, whatever their number"""
    ac = case['aircraft']
    lat = sim.run_case(ctx, ac, upto='lattice').lat
    big = 0
    for key, part in mesh.parts(ac, lat).items():
        strips = mesh.check_tiling(part, lat)
        ns = part.seg['panels']['num_s']
        lines = np.array([s[0] for s in strips] + [1.0])
        edges = [e for c in part.wing.get('controls', []) for _, ea, eb, *_ in ctl.spans(part.wing, c) for e in (ea, eb)]
        big = max(big, ns)
        for e in np.linspace(0, 1, ns + 1):
            # a line may be merged with the edge of a control surface next to it
            tol = 2e-6 if min((abs(e - x) for x in edges), default=1) > 0.0101 else min(0.0101, 0.75/ns)
            d = np.abs(lines - e).min()
            require(d <= tol, f'{mesh.where(part)}: no mesh line at eta = {e:.5f} ({ns} spanwise panels requested)')
        if not edges:
            require(len(strips) == ns, f'{mesh.where(part)}: {len(strips)} strips, {ns} requested')
    ctx.label('100 strips or more' if big >= 100 else 'fewer than 100 strips')
    ctx.nontrivial(big >= 40)


SUBS = [
    Sub('tiling', cases(), tiling, 1500, 30000, 'more than three panels and (control surfaces or several parts)'),
    Sub('fine', fine_cases(), fine, 100, 2000, 'a segment with at least 40 strips'),
]
