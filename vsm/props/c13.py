"""Spherical geometry helpers are exact and never NaN where defined."""
import numpy as np
from astropy import units as u
from vspec_vsm import helpers

from vsm import gen, ref

RULE = ('random and extreme points (poles, coincident, antipodal, nearly so, on the same meridian, on the limb, any '
        'longitude winding, any angle unit) through get_angle_between and proj_ortho, and random and tangent '
        'circles through the overlap function, each compared with an independent formula. Distinct: a different '
        'input; non-trivial: all (every input is judged).')
NEED = {'angles judged': 5000, 'coincident or antipodal angles judged': 300, 'projected points judged': 20000,
        'far-side points judged': 5000, 'projections centered on a pole judged': 30,
        'projected centers judged': 100, 'circle fractions judged': 3000, 'tangent circles judged': 500}
ASSUMPTIONS = ['points within 1e-7 of the limb may be on either side']


def angles(ctx, rng):
    q = gen.Units(rng)
    for _ in range(40):
        a, b = gen.lat(rng), gen.lon(rng)
        k = rng.random()
        want = None
        if k < .12:
            c, d, want = a, b+float(gen.pick(rng, [0, 360, -720])), 0.
        elif k < .24:
            c, d, want = -a, b+float(gen.pick(rng, [180, -180, 540])), np.pi
        elif k < .4:
            c, d = float(np.clip(a+10**rng.uniform(-9, -1), -90, 90)), b+10**rng.uniform(-9, -1)
        else:
            c, d = gen.lat(rng), gen.lon(rng)
        x = helpers.get_angle_between(q(a, 'angle'), q(b, 'angle'), q(c, 'angle'), q(d, 'angle'))
        y = helpers.get_angle_between(q(c, 'angle'), q(d, 'angle'), q(a, 'angle'), q(b, 'angle'))
        x, y = float(x.to_value(u.rad)), float(y.to_value(u.rad))
        ctx.ok(np.isfinite(x) and 0 <= x <= np.pi+1e-12, f'angle between ({a},{b}) and ({c},{d}) is {x!r}')
        exact = float(ref.sep(*np.radians([a, b, c, d])))
        # arccos cannot do better than sqrt(rounding) at both ends
        tol = 1e-7
        if 1e-3 < exact < np.pi-1e-3:
            tol = 1e-11
        ctx.ok(abs(x-exact) <= tol, f'angle between ({a},{b}) and ({c},{d}) is {x!r} rad, expected {exact!r}')
        ctx.ok(abs(x-y) <= tol, f'angle not symmetric: {x!r} and {y!r}')
        if want is not None:
            ctx.ok(abs(x-want) <= 1e-7, f'angle between coincident or antipodal points: {x!r}')
            ctx.event('coincident or antipodal angles judged')
        ctx.event('angles judged')
    n = 30
    a, b = np.array([gen.lat(rng) for _ in range(n)]), np.array([gen.lon(rng) for _ in range(n)])
    c, d = gen.lat(rng), gen.lon(rng)
    x = helpers.get_angle_between(c*u.deg, d*u.deg, a*u.deg, b*u.deg).to_value(u.rad)
    ctx.close(x, ref.sep(np.radians(c), np.radians(d), np.radians(a), np.radians(b)), 'angles of an array', rtol=0, atol=1e-7)
    ctx.event('angles judged', n)
    # arrays of any shape, on either side or both
    A, B, C, D = (np.array([fn(rng) for _ in range(24)]) for fn in (gen.lat, gen.lon, gen.lat, gen.lon))
    shape = [(24,), (4, 6), (2, 3, 4), (24, 1)][int(rng.integers(4))]
    A, B, C, D = (v.reshape(shape) for v in (A, B, C, D))
    for one, two in (((A, B), (C, D)), ((A, B), (c, d)), ((c, d), (A, B))):
        x = helpers.get_angle_between(*(q(v, 'angle') for v in one+two)).to_value(u.rad)
        ctx.close(x, ref.sep(np.radians(one[0]), np.radians(one[1]), np.radians(two[0]), np.radians(two[1])),
                  f'angles of arrays of shape {shape}', rtol=0, atol=1e-7)
        ctx.event('angles judged', 24)
    ctx.key('a', ctx.current[1])
    ctx.sample(dict(lat1=c, lon1=d, lat2=a[:3], lon2=b[:3], angle=x[:3]))


def judge_ortho(ctx, a, b, la, lo, q=gen.CANONICAL):
    x, y = helpers.proj_ortho(q(a, 'angle'), q(b, 'angle'), q(la, 'angle'), q(lo, 'angle'))
    x, y = np.asarray(x, float), np.asarray(y, float)
    rl, ro, ra, rb = np.radians(la), np.radians(lo), np.radians(a), np.radians(b)
    wx, wy = ref.ortho(rl, ro, ra, rb)
    m = ref.mu(rl, ro, ra, rb)
    ctx.ok(x.shape == la.shape and y.shape == la.shape, f'shape {x.shape}')
    near, far = m > 1e-7, m < -1e-7
    bad = near & ~(np.isfinite(x) & np.isfinite(y))
    if bad.any():
        i = np.argmax(bad)
        ctx.fail(f'visible point ({la.ravel()[i]!r},{lo.ravel()[i]!r}) seen from ({a!r},{b!r}) projects to NaN')
    bad = far & (np.isfinite(x) & np.isfinite(y))
    if bad.any():
        i = np.argmax(bad)
        ctx.fail(f'hidden point ({la.ravel()[i]!r},{lo.ravel()[i]!r}) seen from ({a!r},{b!r}) projects to {x.ravel()[i]}')
    e = np.where(near, np.hypot(x-wx, y-wy), 0)
    ctx.margin('projection error', e.max())
    i = np.argmax(e)
    ctx.ok(e.max() <= 0.0101, f'point ({la.ravel()[i]!r},{lo.ravel()[i]!r}) seen from ({a!r},{b!r}) projects to '
           f'({x.ravel()[i]:.5f},{y.ravel()[i]:.5f}) instead of ({wx.ravel()[i]:.5f},{wy.ravel()[i]:.5f})')
    r = np.where(near, np.hypot(x, y)-np.hypot(wx, wy), 0)
    ctx.ok(np.abs(r).max() <= 3e-4, f'distance from disk center off by {np.abs(r).max()!r}')
    ctx.event('projected points judged', int(near.sum()))
    ctx.event('far-side points judged', int(far.sum()))
    if abs(abs(a)-90) < 1e-9:
        ctx.event('projections centered on a pole judged')
    ctx.event('projected centers judged', int(np.sum(m > 1-1e-15)))


def ortho(ctx, rng):
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    a, b = gen.lat(rng), gen.lon(rng)
    if rng.random() < .15:
        a = float(gen.pick(rng, [90., -90.]))
    n = 60
    la = np.array([gen.lat(rng) for _ in range(n)])
    lo = np.array([gen.lon(rng) for _ in range(n)])
    la[0], lo[0] = a, b                              # the center itself
    la[1], lo[1] = a, b+360
    la[2:6] = rng.uniform(-90, 90, 4)                # the central meridian
    lo[2:6] = b+np.array([0, 0, 360, -360])
    la[6:10] = rng.uniform(-90, 90, 4)
    lo[6:10] = b+np.array([180, -180, 180, 540])
    la[10:14] = a                                    # the central parallel
    la[14:20] = np.clip(a+rng.uniform(-1, 1, 6)*10.**rng.uniform(-8, -1, 6), -90, 90)
    lo[14:20] = b+rng.uniform(-1, 1, 6)*10.**rng.uniform(-8, -1, 6)
    la[20:22] = [90, -90]
    if rng.random() < .3:
        la, lo = la.reshape(6, 10), lo.reshape(6, 10)
    judge_ortho(ctx, a, b, la, lo, q)
    ctx.key('o', ctx.current[1])
    ctx.sample(dict(lat0=a, lon0=b, lat=la.ravel()[:4], lon=lo.ravel()[:4]))


def on_grids(ctx, rng):
    """every element of a grid, seen from one of its own elements and from elsewhere"""
    from vspec_vsm.coordinate_grid import CoordinateGrid
    la, lo = CoordinateGrid.new(gen.grid(rng)).grid()
    la, lo = la.to_value(u.deg), lo.to_value(u.deg)
    i = int(rng.integers(la.size))
    judge_ortho(ctx, float(la.ravel()[i]), float(lo.ravel()[i]), la, lo)
    judge_ortho(ctx, gen.lat(rng), gen.lon(rng), la, lo)
    ctx.key('g', ctx.current[1])


def circles(ctx, rng):
    for _ in range(60):
        r = float(gen.pick(rng, [1., 0.5, gen.loguni(rng, 1e-4, 1), rng.uniform(0, 1)]))
        r = max(r, 1e-4)
        k = rng.random()
        tangent = k < .3
        if tangent:
            d = float(gen.pick(rng, [1+r, 1-r, np.nextafter(1+r, 0), np.nextafter(1+r, 9), np.nextafter(1-r, 9),
                                     abs(np.nextafter(1-r, -9)), (1+r)*(1-1e-9), (1-r)+1e-9*r]))
        elif k < .4:
            d = 0.
        elif k < .65:
            d = 1+r*float(rng.uniform(-1.2, 1.2))         # across the limb, whatever the size
        else:
            d = float(rng.uniform(0, 2.3))
        t = float(rng.uniform(0, 2*np.pi)) if rng.random() < .7 else float(gen.pick(rng, [0, np.pi/2, np.pi, -np.pi/2]))
        d = abs(d)
        x, y = d*np.cos(t), d*np.sin(t)
        got = float(helpers.calc_circ_fraction_inside_unit_circle(x, y, r))
        dd = np.hypot(x, y)
        want = ref.lens(dd, r)/(np.pi*r*r)
        ctx.ok(0 <= got <= 1, f'share of circle d={dd!r} r={r!r} inside is {got!r}')
        tol = 1e-9+3e-13/r**2
        near = min(abs(dd-(1+r)), abs(dd-(1-r)))
        if near < 1e-6 and near < 0.01*r:
            tol += 1e-6
        ctx.ok(abs(got-want) <= tol, f'share of circle d={dd!r} r={r!r} inside is {got!r}, expected {want!r}')
        if dd > 1+r+1e-12:
            ctx.ok(got == 0, f'circle apart (d={dd!r} r={r!r}): {got!r}')
        if dd < 1-r-1e-12:
            ctx.ok(got == 1, f'circle contained (d={dd!r} r={r!r}): {got!r}')
        t2 = float(rng.uniform(0, 2*np.pi))
        if near > 1e-6:
            again = float(helpers.calc_circ_fraction_inside_unit_circle(dd*np.cos(t2), dd*np.sin(t2), r))
            ctx.ok(abs(again-got) <= 1e-9+3e-12/r**2, f'share depends on direction: {got!r} and {again!r} (d={dd!r}, r={r!r})')
        ctx.event('circle fractions judged')
        if tangent:
            ctx.event('tangent circles judged')
    ctx.key('c', ctx.current[1])


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('angles', angles, 150, 6000), ('ortho', ortho, 400, 15000), ('grids', on_grids, 80, 2500), ('circles', circles, 120, 5000)]
