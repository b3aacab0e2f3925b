"""Independent evaluation of the documented formulas (used by several oracles)."""
import numpy as np

T0, SB, LF, LV, G, K = 273.15, 5.670374419e-8, 0.334e6, 2.501e6, 9.80665, 0.40
CP, CW, CI, RV, RD = 1004.68506, 4180.0, 2100.0, 461.52, 287.058
RHO_W, RHO_I = 1000.0, 917.0


def es(t):
    """Saturation vapour pressure (Pa), Magnus over water at or above 0 degC, over ice below."""
    tc = np.asarray(t, float) - T0
    with np.errstate(all="ignore"):
        return np.where(tc >= 0, 610.78 * np.exp(17.08 * tc / (234.18 + tc)), 610.71 * np.exp(22.44 * tc / (272.44 + tc)))


def es_water(t):
    tc = np.asarray(t, float) - T0
    return 610.78 * np.exp(17.08 * tc / (234.18 + tc))


def spec_hum(p, e):
    return 0.622 * e / (p - 0.378 * e)


def lat_vap(t):
    return LV - 2361.0 * (t - T0)


def pressure(z):
    return 101325.0 * (1 - G * z / (CP * 288.15)) ** (CP * 0.02896968 / 8.314462618)


def stability(ta, ts, u, af, z0_snow, z0_soil, zt, zu, b):
    u = np.where(u == 0, 0.5, u)
    with np.errstate(all="ignore"):
        ri = G * zu**2 * (ta - ts) / (zt * ta * u**2)
        z0 = z0_snow**af * z0_soil ** (1 - af)
        c = 3 * b**2 * K**2 * np.sqrt(zu / z0) / np.log(zu / z0) ** 2
        f = np.where(ri >= 0, 1 / (1 + 3 * b * ri * np.sqrt(1 + b * np.maximum(ri, 0))), 1 - 3 * b * ri / (1 + c * np.sqrt(np.maximum(-ri, 0))))
    return np.where(np.isnan(f), 1.0, f)


class Fluxes:
    """Surface fluxes (positive towards the surface, ground flux positive downwards) as functions of Ts."""

    def __init__(self, d, q, mavail):
        self.__dict__.update(d)
        self.qa, self.mavail = q, mavail

    def at(self, ts, lat):
        rhocu = self.rho * self.ch * self.u
        rn = (1 - self.albedo) * self.sw + self.lw - 0.99 * SB * ts**4
        h = CP * rhocu * (self.ta - ts)
        e = self.mavail * rhocu * (self.qa - spec_hum(self.p, es(ts)))
        a = (CW * (self.ta - ts) * self.rain + CI * (self.twb - ts) * self.snow) / self.dt
        return rn, h, e, lat * e, a
