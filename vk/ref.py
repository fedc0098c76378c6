"""
Reference vortex-lattice model, written from the theory pages (horseshoe
vortices, Biot-Savart, flow tangency, Kutta-Joukowski, wind-axis coefficients)
in vectorised numpy, independent of the code under test.
"""
import numpy as np


def freestream_dir(alpha_deg, beta_deg):
    a, b = np.deg2rad(alpha_deg), np.deg2rad(beta_deg)
    return np.array([np.cos(a)*np.cos(b), -np.sin(b), np.sin(a)*np.cos(b)])


def onset(points, aero, cg):
    """Undisturbed air velocity relative to the rotating aircraft at each point"""
    v = aero['airspeed']*freestream_dir(aero['alpha'], aero['beta'])
    omega = np.array([aero['rate_P'], aero['rate_Q'], aero['rate_R']])
    return v[None, :] - np.cross(omega[None, :], points - np.asarray(cg, dtype=float)[None, :])


def induced(points, v, eps, tol=False):
    """
    Velocity at points[i] induced by a unit-strength horseshoe v[j] (4 corners,
    3 straight filaments) -> (n_points, n_horseshoes, 3); with tol=True also an
    elementwise bound for the rounding error of any faithful evaluation.
    """
    P = points[:, None, None, :]
    r1 = P - v[None, :, :-1, :]
    r2 = P - v[None, :, 1:, :]
    m1 = np.linalg.norm(r1, axis=-1)
    m2 = np.linalg.norm(r2, axis=-1)
    cr = np.cross(r1, r2)
    dot = np.einsum('ijkx,ijkx->ijk', r1, r2)
    den = dot + m1*m2*(1.0 + eps)
    k = (1.0/m1 + 1.0/m2)/den/(4.0*np.pi)
    w = np.sum(k[..., None]*cr, axis=2)
    if not tol:
        return w
    mc = np.linalg.norm(cr, axis=-1)
    amp = m1*m2/np.abs(den)
    big = np.maximum(np.abs(P), np.max(np.abs(v[None, :, 1:3, :]), axis=2, keepdims=True)).max(axis=-1)
    # points and corners carry rounding of their own size: relative perturbation of r1/r2
    pert = 1e-15*(1.0 + big/np.minimum(m1, m2))
    err = k*(mc*(1e-12 + 20*pert*amp) + 20*pert*m1*m2)
    return w, np.sum(err, axis=2)


def influence(c, n, v, eps):
    w, e = induced(c, v, eps, tol=True)
    return np.einsum('ijx,ix->ij', w, n), e


def rhs(c, n, aero, cg):
    return -np.einsum('ix,ix->i', onset(c, aero, cg), n)


def forces(mid, v, n, area, gamma, aero, refs, eps):
    """Panel velocities, forces, totals, moments and coefficients"""
    out = {}
    w = induced(mid, v, eps)
    ind = np.einsum('ijx,j->ix', w, gamma)
    vel = ind + onset(mid, aero, refs['gcenter'])
    leg = v[:, 2, :] - v[:, 1, :]
    rho, V = aero['density'], aero['airspeed']
    f = rho*gamma[:, None]*np.cross(vel, leg)
    out['ind'] = ind
    out['f'] = f
    out['F'] = f.sum(axis=0)
    out['M'] = np.cross(mid - np.asarray(refs['rcenter'], dtype=float)[None, :], f).sum(axis=0)
    q = 0.5*rho*V*V
    out['cp'] = np.einsum('ix,ix->i', f, n)/(q*area) if q else None
    out['q'] = q
    return out


def wind_axes(F, alpha_deg, beta_deg):
    """(drag, side, lift) components of a body-axis force, as documented"""
    a, b = np.deg2rad(alpha_deg), np.deg2rad(beta_deg)
    D = np.cos(b)*np.cos(a)*F[0] - np.sin(b)*F[1] + np.cos(b)*np.sin(a)*F[2]
    C = np.sin(b)*np.cos(a)*F[0] + np.cos(b)*F[1] + np.sin(b)*np.sin(a)*F[2]
    L = -np.sin(a)*F[0] + np.cos(a)*F[2]
    return D, C, L


def rot(axis, angle):
    """Right-handed rotation matrix (Rodrigues)"""
    k = np.asarray(axis, dtype=float)
    k = k/np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(angle)*K + (1 - np.cos(angle))*(K @ K)


def quad_point(q, s, c):
    """bilinear point: q = (a, b, c, d) corners; s along a->b, c along a->d"""
    a, b, cc, d = q
    return (1-s)*(1-c)*a + s*(1-c)*b + s*c*cc + (1-s)*c*d
