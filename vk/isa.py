"""ICAO standard atmosphere 1993 (0 - 80 km), written from the standard: geometric altitude (m) -> density, speed of sound."""
import math

G0, R, GAMMA, RE = 9.80665, 287.05287, 1.4, 6356766.0
LAYERS = [(0.0, -6.5e-3), (11e3, 0.0), (20e3, 1e-3), (32e3, 2.8e-3), (47e3, 0.0), (51e3, -2.8e-3), (71e3, -2e-3)]


def isa(z):
    h = RE*z/(RE + z)
    T, p = 288.15, 101325.0
    if h < 0:
        T2 = T + LAYERS[0][1]*h
        p *= (T2/T)**(-G0/(LAYERS[0][1]*R))
        T = T2
    else:
        for k, (h0, beta) in enumerate(LAYERS):
            top = LAYERS[k + 1][0] if k + 1 < len(LAYERS) else 1e9
            dh = min(h, top) - h0
            if dh <= 0:
                break
            if beta == 0:
                p *= math.exp(-G0*dh/(R*T))
            else:
                T2 = T + beta*dh
                p *= (T2/T)**(-G0/(beta*R))
                T = T2
    return p/(R*T), math.sqrt(GAMMA*R*T)
