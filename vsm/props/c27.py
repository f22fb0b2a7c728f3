"""A single spot's disk fraction follows its foreshortened area."""
import numpy as np
from astropy import units as u

from vsm import gen, ref

RULE = ('spots of 0.5 to 20 degrees radius anywhere on stars of any radius, seen from random viewpoints, exactly from above, from the antipode, and in '
        'sequences across the limb; each fraction is compared with the foreshortened area of the visible part of the cap over the area of a '
        'hemisphere, with the same geometry rotated and mirrored, with another area and with its neighbours toward the limb. '
        'Distinct: a different spot or viewpoint; non-trivial: some of the spot is visible.')
NEED = {'fractions judged': 2500, 'fully visible spots judged': 600, 'spots across the limb judged': 250, 'hidden spots judged': 300,
        'spots exactly at disk center judged': 60, 'rotations judged': 150, 'scalings judged': 100, 'limb sequences judged': 60, 'cosines judged': 200, 'coarsely sampled spots': 20}
ASSUMPTIONS = ['the spot is integrated on the tangent plane and with a finite number of points: 2 % plus the sampling error']


def exact(a, c0):
    """area of a cap of radius a over a hemisphere times the mean of max(mu, 0) over its visible part, the cap's own
    curvature left out (the statement multiplies by the cosine at the center), for its center at c0 from disk center"""
    if c0+a <= np.pi/2:
        return (1-np.cos(a))*np.cos(c0)
    if c0-a >= np.pi/2:
        return 0.
    n = 240
    r = (np.arange(n)+.5)/n*a
    p = (np.arange(n)+.5)/n*np.pi
    R, P = np.meshgrid(r, p)
    m = np.cos(c0)*np.cos(R)+np.sin(c0)*np.sin(R)*np.cos(P)
    return float(np.sum(np.maximum(m, 0)*np.sin(R))*2*(a/n)*(np.pi/n)/(2*np.pi))*2/(1+np.cos(a))


def spot(rng, a, radius):
    area = 2*np.pi*radius**2*(1-np.cos(a))/ref.MSH_KM2
    s = gen.spot(rng, radius)
    s.update(area=float(area), area_max=float(area))
    return s


def place(la, lo, c, az):
    """the point at angle c and azimuth az from (la, lo), in radians"""
    sla = np.sin(la)*np.cos(c)+np.cos(la)*np.sin(c)*np.cos(az)
    la2 = np.arcsin(np.clip(sla, -1, 1))
    return la2, lo+np.arctan2(np.sin(az)*np.sin(c)*np.cos(la), np.cos(c)-np.sin(la)*sla)


def ask(s, la, lo, radius, q, n=None):
    kw = {} if n is None else dict(n_points=n)
    return float(gen.mk_spot(s, q, grid_params=4).surface_fraction(gen.obs(np.degrees(la), np.degrees(lo), q), q(radius, 'len'), **kw))


def bound(a, n=1001):
    h = np.pi/(n-1)
    full = (1-np.cos(a))
    return full*(.02+.5*(h/a)**1.5)


def judge(ctx, f, a, c0, n, s):
    info = dict(spot=s, angle=np.degrees(c0), size=np.degrees(a), observed=f)
    ctx.ok(np.isfinite(f), f'surface fraction is {f!r} at {np.degrees(c0):.4f} degrees from disk center', **info)
    ctx.ok(f >= 0, f'negative surface fraction {f!r}', **info)
    want = exact(a, c0)
    tol = bound(a, n)*max(np.cos(c0), 1.5*np.sin(a))
    if c0-a > np.pi/2+1e-6:
        ctx.ok(f == 0, f'a spot behind the star has fraction {f!r}', **info)
        ctx.event('hidden spots judged')
    else:
        ctx.ok(abs(f-want) <= tol, f'surface fraction {f!r} at {np.degrees(c0):.3f} degrees, the foreshortened area is {want!r} of a hemisphere', **info)
        if want > 1e-9:
            ctx.margin('fraction over foreshortened area, relative to tolerance', abs(f-want)/tol)
        if c0+a < np.pi/2:
            ctx.event('fully visible spots judged')
        else:
            ctx.event('spots across the limb judged')
        ctx.key(s, round(c0, 6))
    ctx.event('fractions judged')


def values(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS) if rng.random() < .8 else float(gen.loguni(rng, .008, 1000)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    a = np.radians(gen.loguni(rng, .5, 20))
    n = int(gen.pick(rng, [1001, 1001, 1001, 501, 4001, 1001, 1001, 1001, 501, 6001]))
    if rng.random() < .1:
        n = int(rng.integers(120, 500))
        a = np.radians(float(rng.uniform(max(8., 8*180/n), 20)))
        ctx.event('coarsely sampled spots')
    s = spot(rng, a, radius)
    sla, slo = np.radians(s['lat']), np.radians(s['lon'])
    for _ in range(5):
        k = rng.random()
        if k < .5:
            la, lo = np.radians(gen.lat(rng)), np.radians(gen.lon(rng))
        elif k < .6:
            la, lo = sla, slo+2*np.pi*int(rng.integers(-1, 2))
        elif k < .65:
            la, lo = -sla, slo+np.pi
        else:
            la, lo = place(sla, slo, float(np.pi/2+rng.uniform(-1.2, 1.2)*a), float(rng.uniform(0, 2*np.pi)))
        c0 = float(ref.sep(sla, slo, la, lo))
        f = ask(s, la, lo, radius, q, None if n == 1001 else n)
        judge(ctx, f, a, c0, n, s)
        if c0 < 1e-7:
            ctx.event('spots exactly at disk center judged')
    ctx.sample(dict(spot=s, radius=radius, points=n))


def center(ctx, rng):
    """exactly at disk center and exactly behind: rounding must not hurt"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    a = np.radians(float(rng.uniform(1, 20)))
    s = spot(rng, a, radius)
    for _ in range(3):
        s.update(lat=gen.lat(rng), lon=gen.lon(rng))
        sp = gen.mk_spot(s, grid_params=4)
        f = float(sp.surface_fraction({'lat': sp.coords['lat'], 'lon': sp.coords['lon']}, radius*u.km))
        judge(ctx, f, a, 0., 1001, s)
        ctx.event('spots exactly at disk center judged')
        f = float(sp.surface_fraction({'lat': -sp.coords['lat'], 'lon': sp.coords['lon']+180*u.deg}, radius*u.km))
        judge(ctx, f, a, np.pi, 1001, s)


def same(ctx, rng):
    """only the relative position counts; the fraction scales with the area"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.CANONICAL
    a = np.radians(float(rng.uniform(1, 20)))
    s = spot(rng, a, radius)
    c = float(rng.uniform(0, np.pi/2+a))
    la, lo = place(np.radians(s['lat']), np.radians(s['lon']), c, float(rng.uniform(0, 2*np.pi)))
    f = ask(s, la, lo, radius, q)
    # elsewhere on the star, the same angle; then swapped with the observer; then another radius
    t = dict(s, lat=gen.lat(rng), lon=gen.lon(rng))
    la2, lo2 = place(np.radians(t['lat']), np.radians(t['lon']), c, float(rng.uniform(0, 2*np.pi)))
    tol = 1e-6*(1-np.cos(a))
    g = ask(t, la2, lo2, radius, q)
    ctx.ok(abs(f-g) <= tol, f'fraction {f!r}, elsewhere at the same angle {g!r}', spot=s, angle=c)
    w = dict(s, lat=float(np.degrees(la)), lon=float(np.degrees(lo)))
    g = ask(w, np.radians(s['lat']), np.radians(s['lon']), radius, q)
    ctx.ok(abs(f-g) <= tol, f'fraction {f!r}, with spot and observer swapped {g!r}', spot=s, angle=c)
    k = gen.loguni(rng, .3, 3)
    g = ask(dict(s, area=s['area']*k**2, area_max=s['area_max']*k**2), la, lo, radius*k, q)
    ctx.ok(abs(f-g) <= tol, f'fraction {f!r}, on a star {k:.3f} times larger with the spot scaled along {g!r}', spot=s, angle=c)
    # what is not geometry does not matter
    g = ask(dict(s, tu=s['tu']/2, ratio=s['ratio']+2, growing=not s['growing']), la, lo, radius, q)
    ctx.ok(f == g, 'the fraction depends on something else than geometry', spot=s)
    ctx.event('rotations judged')
    # area
    if c < np.pi/2-np.radians(21):
        b = a*float(rng.uniform(.3, 1))
        k = (1-np.cos(b))/(1-np.cos(a))
        g = ask(dict(s, area=s['area']*k), la, lo, radius, q)
        ctx.ok(abs(g/f/k-1) < .02+(np.pi/1000/b)**1.5, f'{k:.4f} times the area gives {g/f:.4f} times the fraction', spot=s, angle=c)
        ctx.event('scalings judged')
    ctx.key('same', s)


def sequence(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    a = np.radians(gen.loguni(rng, 1, 20))
    s = spot(rng, a, radius)
    az = float(rng.uniform(0, 2*np.pi))
    cs = np.linspace(0, min(np.pi, np.pi/2+1.2*a), 16)
    f = []
    sp = gen.mk_spot(s, grid_params=4)
    for c in cs:
        la, lo = place(np.radians(s['lat']), np.radians(s['lon']), float(c), az)
        f.append(float(sp.surface_fraction(gen.obs(np.degrees(la), np.degrees(lo)), radius*u.km)))
        judge(ctx, f[-1], a, float(c), 1001, s)
    up = np.diff(f)
    tol = (1-np.cos(a))*.5*(np.pi/1000/a)**1.5
    ctx.ok(np.all(up <= tol), f'the fraction grows toward the limb ({up.max():.3g}, size {np.degrees(a):.2f} degrees)', spot=s)
    ctx.ok(f[-1] == 0, 'a spot behind the star is seen', spot=s)
    ctx.event('limb sequences judged')


def fine(ctx, rng):
    """a well-sampled spot wholly in view: only the cosine of its place on the disk changes"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    a = np.radians(float(rng.uniform(4, 20)))
    s = spot(rng, a, radius)
    sla, slo = np.radians(s['lat']), np.radians(s['lon'])
    f0 = ask(s, sla, slo, radius, gen.CANONICAL, 20001)
    for _ in range(3):
        c = float(rng.uniform(0, np.pi/2-a)) if rng.random() < .7 else gen.loguni(rng, 1e-3, .2)
        la, lo = place(sla, slo, c, float(rng.uniform(0, 2*np.pi)))
        f = ask(s, la, lo, radius, gen.CANONICAL, 20001)
        ctx.ok(abs(f/f0-np.cos(c)) < 8e-5, f'fraction {f/f0!r} of that at disk center, the cosine is {np.cos(c)!r}', spot=s, angle=np.degrees(c))
        ctx.margin('deviation from the cosine, well sampled', abs(f/f0-np.cos(c)))
        ctx.event('cosines judged')
        ctx.key('fine', s, c)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('values', values, 360, 8000), ('center', center, 60, 600), ('same', same, 220, 4000), ('sequence', sequence, 90, 1500),
             ('fine', fine, 100, 2000)]
