"""Facula wall and floor areas follow the hot-wall model and conserve area."""
import math

import numpy as np
from astropy import units as u

from vsm import gen, judges, mon, ref

RULE = ('random faculae (radii over five decades, depths from 1e-3 to 1e3 radii, minimum radii at, below and above the '
        'radius, slopes of either sign) at random and extreme viewing angles, and increasing sweeps of angle and '
        'depth; each effective area, fraction and contrast is compared with the hot-wall formula. Distinct: a '
        'different (facula, angle); non-trivial: the angle is below 90 degrees.')
NEED = {'effective areas judged': 2000, 'partly visible floors judged': 500, 'contrasts judged': 500, 'areas of like wall and floor judged': 200,
        'monotone sweeps judged': 50}
ASSUMPTIONS = ['wall and floor contrasts that are exactly equal are refused, as documented']
TABLE = {'Facula.effective_area': judges.effective_area(False),
         'Facula.fractional_effective_area': judges.effective_area(True),
         'Facula.wall_dteff': judges.contrast(0), 'Facula.floor_dteff': judges.contrast(1)}


def spec_of(rng, like=0.):
    while True:
        r = gen.loguni(rng, 10, 1e6)
        f = gen.facula(rng, 1.)
        f.update(r=r, rmax=r*2, depth=r*gen.loguni(rng, 1e-3, 1e3), fmin=float(gen.pick(rng, [0., r*.3, r*.999999, r, r*1.000001, r*3, r*gen.loguni(rng, 1e-4, .1)])),
                 fslope=float(rng.uniform(-100, 100)/r), wslope=float(rng.uniform(-100, 100)/r))
        if rng.random() < like:
            gen.alike(rng, f)
            return f
        w, fl = gen.facula_contrasts(f)
        if abs(w-fl) > 1.5:
            return f


@mon.monitored(TABLE)
def points(ctx, rng):
    f = spec_of(rng, .1)
    q = gen.Units(rng) if rng.random() < .4 else gen.CANONICAL
    fac = gen.mk_facula(f, q, grid_params=10)
    dr = f['depth']/f['r']
    special = [0., 45., 60., 89.9, 89.99999, math.degrees(math.atan(2/dr)), math.degrees(math.atan(1/dr)),
               math.degrees(math.atan(2/dr))*(1-1e-9), math.degrees(math.atan(2/dr))*1.0000001]
    for a in special+list(rng.uniform(0, 90, 6)):
        a = min(float(a), 89.999999)
        fac.effective_area(q(a, 'angle'))
        fac.fractional_effective_area(q(a, 'angle'))
        ctx.key(f, a)
    fac.wall_dteff
    fac.floor_dteff
    ctx.sample(f)
    # contrasts follow the current radius
    for k in (0.5, 1.3, gen.loguni(rng, 1e-4, .5)):
        fac.radius = q(f['r']*k, 'len')
        fac.wall_dteff
        fac.floor_dteff
        w, fl = gen.facula_contrasts(gen.facula_state(fac))
        if abs(w-fl) > 1e-3:
            fac.fractional_effective_area(q(30., 'angle'))


def floor_share(fac, a):
    vals = list(fac.fractional_effective_area(a*u.rad).items())
    fl = float(fac.floor_dteff.to_value(u.K))
    k = min(vals, key=lambda kv: abs(float(kv[0].to_value(u.K))-fl))
    return float(u.Quantity(k[1]).to_value(u.dimensionless_unscaled))


@mon.monitored(TABLE)
def sweeps(ctx, rng):
    f = spec_of(rng)
    f['fslope'] = f['wslope'] = 0.
    f['fmin'] = float(gen.pick(rng, [0., f['r']*.5]))
    fac = gen.mk_facula(f, grid_params=10)
    dr = f['depth']/f['r']
    angles = np.sort(np.concatenate([[0.], np.arctan(rng.uniform(0, 2.3, 12)/dr)]))
    shares = [floor_share(fac, a) for a in angles]
    ctx.ok(abs(shares[0]-1) < 1e-9, f'floor share at disk center is {shares[0]!r}', facula=f)
    ctx.ok(np.all(np.diff(shares) <= 1e-9), 'floor share increases with angle', facula=f, shares=shares)
    ctx.ok(floor_share(fac, math.atan(2.01/dr)) < 1e-9, 'floor visible beyond two radii', facula=f)
    a = float(rng.uniform(0.1, 1.4))
    sh = []
    for d in np.sort(rng.uniform(0, 3, 8))*f['r']:
        fac.depth = d*u.km
        sh.append(floor_share(fac, a))
    ctx.ok(np.all(np.diff(sh) <= 1e-9), 'floor share increases with depth', facula=f, shares=sh)
    ctx.event('monotone sweeps judged', 2)
    ctx.key(f)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('points', points, 300, 6000), ('sweeps', sweeps, 100, 2000)]
