SEED = dict(
    property="A01",
    needs="hot and very dry air, for which the wet-bulb iteration needs more steps than usual",
    what_it_breaks="the wet-bulb temperature does not solve the psychrometer equation",
    edits=[("openamundsen/meteo/atmosphere.py", "    while True:\n        d = (x1 - x0)", "    for _ in range(4):\n        d = (x1 - x0)")],
)
import sys

import numpy as np
from openamundsen.meteo import atmosphere as at

t, rh = (x.ravel() for x in np.meshgrid(np.linspace(255.0, 318.0, 30), np.linspace(3.0, 100.0, 30)))
p = at.atmospheric_pressure(2500.0)
e = at.vapor_pressure(t, rh)
g = at.psychrometric_constant(p, at.specific_heat_capacity_moist_air(at.specific_humidity(p, e)), at.latent_heat_of_vaporization(t))
w = at.wet_bulb_temperature(t, rh, e, g)
lo, hi = t - 60.0, t + 0.0
for _ in range(60):
    mid = (lo + hi) / 2
    up = at.saturation_vapor_pressure(mid) - g * (t - mid) > e
    lo, hi = np.where(up, lo, mid), np.where(up, mid, hi)
d = np.abs(w - mid)
print(d.max())
assert (d < 0.02).all(), f"wet-bulb temperature is off by {d.max()} K"
