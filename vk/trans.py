"""Transformations of input files that must not (or must predictably) change the physics."""
import copy
import math

import numpy as np


def vmap(ac, f):
    """apply f to every vertex and both reference points"""
    ac = copy.deepcopy(ac)
    for w in ac['wings']:
        for s in w['segments']:
            s['vertices'] = {k: [float(x) for x in f(v)] for k, v in s['vertices'].items()}
    for k in ('gcenter', 'rcenter'):
        ac['refs'][k] = [float(x) for x in f(ac['refs'][k])]
    return ac


def swap_root_tip(w):
    """Describe the same wing from tip to root (inner and outer exchanged everywhere)"""
    w = copy.deepcopy(w)
    w['segments'].reverse()
    for s in w['segments']:
        v = s['vertices']
        s['vertices'] = dict(a=v['b'], b=v['a'], c=v['d'], d=v['c'])
        s['airfoils'] = dict(inner=s['airfoils']['outer'], outer=s['airfoils']['inner'])
    for c in w.get('controls', []):
        c['segment_uid'] = dict(inner=c['segment_uid']['outer'], outer=c['segment_uid']['inner'])
        r = c['rel_vertices']
        c['rel_vertices'] = dict(eta_inner=round(1 - r['eta_outer'], 9), xsi_inner=r['xsi_outer'],
                                 eta_outer=round(1 - r['eta_inner'], 9), xsi_outer=r['xsi_inner'])
        h = c['rel_hinge_vertices']
        c['rel_hinge_vertices'] = dict(xsi_inner=h['xsi_outer'], xsi_outer=h['xsi_inner'])
    return w


def reflect_xz(ac):
    """
    The mirror image of the whole aircraft across the X-Z plane.  Wings with X-Z symmetry only exchange the deflections of
    their two halves; other wings are reflected and, to keep the spanwise direction, described from tip to root.
    """
    flip = lambda p: [p[0], -p[1], p[2]]
    out = vmap(ac, flip)
    for k, w in enumerate(out['wings']):
        if w['symmetry'] == 2:
            w = copy.deepcopy(ac['wings'][k])
            for c in w.get('controls', []):
                d = c['deflection']
                c['deflection'] = c.get('deflection_mirror', d)
                c['deflection_mirror'] = d
            out['wings'][k] = w
        else:
            out['wings'][k] = swap_root_tip(w)
    return out


def other_half(w):
    """The same wing with X-Z symmetry, described by its left instead of its right half (or the other way round)"""
    w = swap_root_tip(w)
    for s in w['segments']:
        s['vertices'] = {k: [v[0], -v[1], v[2]] for k, v in s['vertices'].items()}
    for c in w.get('controls', []):
        d = c['deflection']
        c['deflection'] = c.get('deflection_mirror', d)
        c['deflection_mirror'] = d
    return w


def reflect_aero(a):
    a = dict(a)
    for k in ('beta', 'rate_P', 'rate_R'):
        a[k] = -a[k]
    return a


def near_lines(ac, tol=0.011):
    """a control edge and a regular spanwise line lie (almost) close enough to be merged: order of insertion matters"""
    for w in ac['wings']:
        for c in w.get('controls', []):
            for side in ('inner', 'outer'):
                e = c['rel_vertices']['eta_' + side]
                for s in w['segments']:
                    if s['uid'] != c['segment_uid'][side]:
                        continue
                    n = s['panels']['num_s']
                    for k in range(0, n + 1):
                        d = abs(e - k/n)
                        if 1e-9 < d < tol:
                            return True
    return False


def alpha_beta(d):
    """flow angles (deg) of a free-stream direction"""
    return math.degrees(math.atan2(d[2], d[0])), -math.degrees(math.asin(max(-1, min(1, d[1]))))


def rotmat(axis, deg):
    k = np.asarray(axis, float)/np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    t = math.radians(deg)
    return np.eye(3) + math.sin(t)*K + (1 - math.cos(t))*(K @ K)


FM = ('x', 'y', 'z', 'l', 'm', 'n')


def loads(data):
    return (np.array([data.forces[k] for k in 'xyz']), np.array([data.forces[k] for k in 'lmn']),
            np.array([data.forces[k] for k in 'DCL']))


def tolerances(r, rel=1e-8):
    """relative tolerance justified by the conditioning of the linear system, and natural scales of force and moment"""
    cond = np.linalg.cond(r.data.matrix_downwash)
    f = np.abs(np.stack([r.data.panelwise[k] for k in ('fx', 'fy', 'fz')], axis=1))
    a = r.cur.aero
    V = a['airspeed'] + 10*(abs(a['rate_P']) + abs(a['rate_Q']) + abs(a['rate_R']))
    F = f.sum() + 1e-3*a['density']*V*V*np.sum(r.lat.a)
    arm = np.abs(r.lat.bound_leg_midpoints - np.asarray(r.aircraft.refs['rcenter'])).max() + 1.0
    return rel + 1e-12*cond, F, F*arm, cond


# ----- what differences in the normals can do to the results -----

def pair(r, r2, what, pmap=lambda p: p, ptol=1e-8):
    """index of the panel of r2 which is the image of each panel of r; None if the meshes differ"""
    p1, p2 = pmap(np.asarray(r.lat.p).reshape(-1, 3)).reshape(-1, 4, 3), np.asarray(r2.lat.p)
    if len(p1) != len(p2):
        return None
    c1, c2 = p1.mean(axis=1), p2.mean(axis=1)
    d = np.linalg.norm(c1[:, None] - c2[None], axis=2)
    j = d.argmin(axis=1)
    scale = 1 + max(np.abs(p1).max(), np.abs(p2).max())
    if len(set(j.tolist())) != len(p1) or d[np.arange(len(p1)), j].max() > ptol*scale:
        return None
    return j


def normals_apart(r, r2, j, Q=np.eye(3)):
    """distance of corresponding normals; a reflection may exchange the sides of a panel"""
    n1, n2 = np.asarray(r.lat.n) @ np.asarray(Q).T, np.asarray(r2.lat.n)[j]
    return np.linalg.norm(n2 - n1, axis=1)


def effect(r, dn, r2=None, index=None, kv=1.0):
    """
    First-order bounds for the effect of turning the normals by dn on circulation, panel forces, total force and moment.
    r2: the other analysis (its panel index[i] corresponds to panel i), whose coordinates may be larger and carry larger rounding errors;
    kv: its influence coefficients are kv times those of r.
    """
    from vk import ref
    aero, refs = r.cur.aero, r.aircraft.refs

    def noise(own, other, pts):
        # midpoints lie on their own vortex: rounding errors of the coordinates are amplified by 1/epsilon there
        if other is None:
            return own
        j = np.arange(len(own)) if index is None else index
        t = ref.induced(getattr(other.lat, pts), other.lat.v, other.lat.epsilon, tol=True)[1]
        return own + t[np.ix_(j, j)]/kv
    A = np.asarray(r.data.matrix_downwash)
    g = np.abs(np.asarray(r.data.panelwise['gamma']))
    w, wt = ref.induced(r.lat.c, r.lat.v, r.lat.epsilon, tol=True)
    w = np.linalg.norm(w, axis=2)
    on = np.linalg.norm(ref.onset(r.lat.c, aero, refs['gcenter']), axis=1)
    dg = np.abs(np.linalg.inv(A)) @ (dn*(w @ g + on) + noise(wt, r2, 'c') @ g)
    mid = r.lat.bound_leg_midpoints
    wm, wmt = ref.induced(mid, r.lat.v, r.lat.epsilon, tol=True)
    vel = np.linalg.norm(np.einsum('ijx,j->ix', wm, np.asarray(r.data.panelwise['gamma'])) + ref.onset(mid, aero, refs['gcenter']), axis=1)
    leg = np.linalg.norm(r.lat.v[:, 2] - r.lat.v[:, 1], axis=1)
    dv = np.linalg.norm(wm, axis=2) @ dg + noise(wmt, r2, 'bound_leg_midpoints') @ g
    df = aero['density']*leg*(dg*vel + (g + dg)*dv)
    arm = np.linalg.norm(mid - np.asarray(refs['rcenter'], float), axis=1)
    return dict(gamma=2*dg, v=2*dv, f=2*df, F=2*df.sum(), M=2*(df*arm).sum(), big=bool(2*df.sum() > 0.2*tolerances(r)[1]))


def undecided(ac, lat, auto=None):
    """
    The number of chordwise panels of a strip is its share of the chord, times the panels of the segment, rounded up:
    True if that product is a whole number, so that rounding errors decide.  auto: chordwise and spanwise numbers of panels
    used where there are none in the file (the latter shared out in the same way among the segments of a wing).
    """
    from vk import mesh
    for w in ac['wings'] if auto else []:
        q = [mesh.seg_corners(s) for s in w['segments']]
        span = [float(np.hypot(*(b - a)[1:])) for a, b, _, _ in q]
        for s, x in zip(w['segments'], span):
            n = x/sum(span)*auto[1]
            if len(span) > 1 and not s.get('panels', {}).get('num_s') and abs(n - round(n)) < 1e-6:
                return True
    for part in mesh.parts(ac, lat).values():
        nc = part.seg.get('panels', {}).get('num_c') or (auto[0] if auto else None)
        for e0, e1, quads, names, _ in mesh.check_tiling(part, lat):
            m = [k for k, c in enumerate(names) if c is None]
            if not m or len(m) == len(names):
                continue
            xs = quads[m][:, :, 1]
            rel = 0.5*(xs[:, 2].max() + xs[:, 3].max() - xs[:, 0].min() - xs[:, 1].min())
            if nc is None or abs(rel*nc - round(rel*nc)) < 1e-6:
                return True
    return False
