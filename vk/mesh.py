"""Reading a lattice back in the (eta, xsi) coordinates of the segments it was made from."""
import numpy as np

from vk.core import require, Violation

FLIP = {1: np.array([1., 1., -1.]), 2: np.array([1., -1., 1.]), 3: np.array([-1., 1., 1.])}


def seg_corners(seg):
    v = seg['vertices']
    return [np.array(v[k], dtype=float) for k in 'abcd']


def bilinear(q, eta, xsi):
    a, b, c, d = q
    eta, xsi = np.asarray(eta)[..., None], np.asarray(xsi)[..., None]
    return (1-eta)*(1-xsi)*a + eta*(1-xsi)*b + eta*xsi*c + (1-eta)*xsi*d


def locate(q, pts):
    """(eta, xsi) of points on the segment surface (Newton), residual distance"""
    pts = np.asarray(pts, dtype=float)
    a, b, c, d = q
    e, x = np.full(len(pts), 0.5), np.full(len(pts), 0.5)
    for _ in range(60):
        f = bilinear(q, e, x) - pts
        je = (1-x)[:, None]*(b-a) + x[:, None]*(c-d)
        jx = (1-e)[:, None]*(d-a) + e[:, None]*(c-b)
        ee, ex, xx = (je*je).sum(1), (je*jx).sum(1), (jx*jx).sum(1)
        fe, fx = (je*f).sum(1), (jx*f).sum(1)
        det = ee*xx - ex*ex
        de, dx = (xx*fe - ex*fx)/det, (ee*fx - ex*fe)/det
        e, x = e - de, x - dx
        if np.abs(de).max() < 1e-14 and np.abs(dx).max() < 1e-14:
            break
    res = np.linalg.norm(bilinear(q, e, x) - pts, axis=1)
    return e, x, res


class Part:
    """Panels of one segment on one side, in segment coordinates"""

    def __init__(self, wing, seg, mirror):
        self.wing, self.seg, self.mirror = wing, seg, mirror
        self.idx, self.ctl = [], []


def parts(aircraft, lat):
    """Group panels by (wing, segment, side) using the lattice's bookkeeping; every panel exactly once"""
    n = len(lat.p)
    out = {}
    for w in aircraft['wings']:
        for s in w['segments']:
            for m in ((False, True) if w['symmetry'] else (False,)):
                out[(w['uid'], s['uid'], m)] = Part(w, s, m)
    nxt = 0
    for e in lat.panel_bookkeeping:
        rng = list(e.pan_idx)
        require(len(rng) == e.num_chordwise_panels and rng == list(range(nxt, nxt + len(rng))),
                'the bookkeeping does not enumerate the panels consecutively')
        nxt += len(rng)
        key = (e.subarea.parent_wing.uid, e.subarea.parent_segment.uid, bool(e.mirror))
        require(key in out, f'bookkeeping entry for unknown part {key}')
        c = e.subarea.parent_control.uid if e.subarea.parent_control is not None else None
        out[key].idx.append(rng)
        out[key].ctl.append(c)
    require(nxt == n, f'bookkeeping covers {nxt} of {n} panels')
    for by, side in ((lat.bookkeeping_by_wing_uid, False), (lat.bookkeeping_by_wing_uid_mirror, True)):
        want = {}
        for e in lat.panel_bookkeeping:
            if bool(e.mirror) is side:
                want.setdefault(e.subarea.parent_wing.uid, []).append(list(e.pan_idx))
        got = {k: [list(e.pan_idx) for e in v] for k, v in by.items() if v}
        require(got == want, f'bookkeeping by wing ({"mirrored" if side else "modelled"} side) disagrees with the panel list')
    return out


def unmirror(pts, sym):
    return pts*FLIP[sym]


def uv(part, lat):
    """
    Corner coordinates of every panel of the part: array (n, 4, 2) with columns eta, xsi, ordered as
    (inner LE-side, outer LE-side, outer TE-side, inner TE-side) of the *modelled* segment.
    """
    idx = [i for r in part.idx for i in r]
    p = np.asarray(lat.p)[idx]
    sym = part.wing['symmetry']
    if part.mirror:
        p = p*FLIP[sym]
        if sym == 2:
            p = p[:, [1, 0, 3, 2]]
        elif sym == 3:
            p = p[:, [3, 2, 1, 0]]
    q = seg_corners(part.seg)
    e, x, res = locate(q, p.reshape(-1, 3))
    size = max(np.linalg.norm(q[2]-q[0]), np.linalg.norm(q[1]-q[3]))
    scale = max(1.0, np.abs(np.array(q)).max())
    if res.max() > 1e-9*(size + scale):
        i = int(np.argmax(res))
        raise Violation(f'{where(part)}: panel corner {np.round(p.reshape(-1, 3)[i], 6).tolist()} is {res[i]:.3g} off the surface')
    return np.stack([e, x], axis=-1).reshape(-1, 4, 2)


def where(part):
    return f"wing {part.wing['uid']}, segment {part.seg['uid']}" + (', mirrored side' if part.mirror else '')


def check_tiling(part, lat, tol=1e-7):
    """Panels fill [0,1]x[0,1] without gaps or overlaps; returns list of strips [(eta0, eta1, quads, ctl)]"""
    t = uv(part, lat)
    w = where(part)
    if t.min() < -tol or t.max() > 1 + tol:
        raise Violation(f'{w}: panel corners outside the segment (eta/xsi range {t.min():.6g} .. {t.max():.6g})')
    ctl = [c for r, c in zip(part.idx, part.ctl) for _ in r]
    strips = {}
    # spanwise positions which are equal up to rounding get one name
    names, last = {}, None
    for e in sorted(t[:, :, 0].ravel()):
        if last is None or e - last > 5e-7:
            last = e
        names[e] = round(last, 6)
    for k in range(len(t)):
        e = t[k, :, 0]
        if abs(e[0]-e[3]) > tol or abs(e[1]-e[2]) > tol or not e[1] > e[0]:
            raise Violation(f'{w}: panel sides do not lie on constant spanwise positions: {e.tolist()}')
        strips.setdefault((names[e[0]], names[e[1]]), []).append(k)
    keys = sorted(strips)
    pos = 0.0
    out = []
    for k in keys:
        if abs(k[0] - pos) > 2e-6:
            raise Violation(f'{w}: spanwise {"gap" if k[0] > pos else "overlap"} between eta {pos} and {k[0]}')
        pos = k[1]
        rows = sorted(strips[k], key=lambda i: t[i, 0, 1] + t[i, 1, 1])
        lo = np.zeros(2)
        for i in rows:
            le = t[i, :2, 1]
            te = t[i, [3, 2], 1]
            if np.abs(le - lo).max() > 10*tol:
                raise Violation(f'{w}: chordwise gap/overlap at eta {k}: a panel starts at xsi {le.tolist()}, '
                                f'the previous one ends at {lo.tolist()}')
            if not (te > le).all():
                raise Violation(f'{w}: panel with non-positive chord at eta {k}: xsi {le.tolist()} .. {te.tolist()}')
            lo = te
        if np.abs(lo - 1).max() > 10*tol:
            raise Violation(f'{w}: the strip at eta {k} ends at xsi {lo.tolist()}')
        out.append((k[0], k[1], t[rows], [ctl[i] for i in rows], rows))
    if abs(pos - 1) > 2e-6:
        raise Violation(f'{w}: the segment is meshed up to eta {pos} only')
    return out
