"""Where control surfaces have to be, from the input data alone (independent of the meshing code)."""
import numpy as np

from vk.mesh import seg_corners, bilinear


def is_planar(seg):
    a, b, c, d = seg_corners(seg)
    return abs(np.dot(np.cross(b - a, d - a), c - a)) < 1e-9


def spans(wing, ctl):
    """
    [(segment index, eta_i, eta_o, xsi_i, xsi_o, hinge_i, hinge_o)] of a control.  At segment borders the edge and
    hinge positions are interpolated linearly in the length along the control.
    """
    uids = [s['uid'] for s in wing['segments']]
    ka, kb = uids.index(ctl['segment_uid']['inner']), uids.index(ctl['segment_uid']['outer'])
    r, h = ctl['rel_vertices'], ctl['rel_hinge_vertices']
    x1, x2, h1, h2 = r['xsi_inner'], r['xsi_outer'], h['xsi_inner'], h['xsi_outer']
    rows = []
    for k in range(ka, kb + 1):
        rows.append([k, r['eta_inner'] if k == ka else 0.0, r['eta_outer'] if k == kb else 1.0])
    if ka == kb:
        return [tuple(rows[0]) + (x1, x2, h1, h2)]
    xm = 0.5*(x1 + x2)
    ln = [0.0]
    for i, (k, ea, eb) in enumerate(rows):
        q = seg_corners(wing['segments'][k])
        p1 = bilinear(q, ea, x1 if k == ka else xm)
        p2 = bilinear(q, eb, x2 if k == kb else xm)
        ln.append(ln[-1] + np.linalg.norm(p2 - p1))
    t = np.array(ln)/ln[-1]
    out = []
    for i, (k, ea, eb) in enumerate(rows):
        f = lambda u, v, s: u + (v - u)*s
        out.append((k, ea, eb, f(x1, x2, t[i]), f(x1, x2, t[i+1]), f(h1, h2, t[i]), f(h1, h2, t[i+1])))
    return out


def straight(seg, ea, xa, eb, xb, eta):
    """xsi of the straight line through (ea, xa), (eb, xb) of a planar segment at eta"""
    q = seg_corners(seg)
    p1, p2 = bilinear(q, ea, xa), bilinear(q, eb, xb)
    u, v = bilinear(q, eta, 0.0), bilinear(q, eta, 1.0)
    # p1 + s (p2 - p1) = u + t (v - u)
    M = np.stack([p2 - p1, -(v - u)], axis=1)
    s, t = np.linalg.lstsq(M, u - p1, rcond=None)[0]
    return t
