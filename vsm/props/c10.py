"""Grids cover the sphere and their weights integrate over it."""
import numpy as np
from astropy import units as u
from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid, SpiralGrid

from vsm import gen, ref

RULE = ('grids of random kind and size (spirals of 1 to 200000 points, rectangles from 3x1 to 300x600) made by the '
        'factory and by the constructors; points, weights, zeros, spacings, cosines from random and pole/antipode '
        'viewpoints, integrals of random polynomials and of half-space and projection functions, and comparisons '
        'between pairs of grids. Distinct: a different (grid, viewpoint set); non-trivial: more than one element.')
NEED = {'grids judged': 150, 'cosine arrays judged': 600, 'integrals judged': 3000, 'comparisons judged': 500,
        'viewpoints on an element judged': 100}
ASSUMPTIONS = ['integration bounds hold for spirals of at least 50 points and rectangles of at least 12 x 12',
               'rectangles have at least three latitudes (two are both poles and carry no area)']


def size(rng, thorough):
    if rng.random() < .5:
        k = rng.random()
        if k < .1:
            return int(rng.integers(1, 12))
        return int(gen.loguni(rng, 12, 5000) if k < .9 else gen.loguni(rng, 12, 60000) if k < .97 else gen.loguni(rng, 6e4, 2e5))
    k = rng.random()
    if k < .1:
        return (int(rng.integers(3, 6)), int(rng.integers(1, 6)))
    if k > .9:
        k = rng.random()
        if k < .3:
            return (int(rng.integers(3, 9)), int(gen.loguni(rng, 600, 9000)))
        if k < .6:
            return (int(gen.loguni(rng, 300, 6000)), int(rng.integers(1, 9)))
        return (int(rng.integers(100, 300)), int(rng.integers(100, 600)))
    return (int(rng.integers(4, 80)), int(rng.integers(4, 120)))


def unitvec(rng):
    v = rng.normal(size=3)
    return v/np.linalg.norm(v)


def shape_and_points(ctx, p, g):
    lat, lon = g.grid()
    la, lo = lat.to_value(u.rad), lon.to_value(u.rad)
    shape = (p,) if isinstance(p, int) else (p[1], p[0])
    ctx.ok(la.shape == shape and lo.shape == shape, f'grid {p}: arrays of shape {la.shape}, {lo.shape}')
    w = np.asarray(g.area)
    ctx.ok(w.shape == shape, f'grid {p}: weights of shape {w.shape}')
    for dt in (None, 'float64', 'int16', 'bool'):
        z = g.zeros() if dt is None else g.zeros(dtype=dt)
        ctx.ok(z.shape == shape and not np.any(z), f'grid {p}: zeros() of shape {z.shape}, any non-zero {np.any(z)}')
        if dt is not None:
            ctx.ok(z.dtype == np.dtype(dt), f'grid {p}: zeros({dt}) has type {z.dtype}')
    ctx.ok(np.all(np.isfinite(la)) and np.all(np.isfinite(lo)), f'grid {p}: not finite')
    ctx.ok(la.min() >= -np.pi/2-1e-12 and la.max() <= np.pi/2+1e-12, f'grid {p}: latitude outside [-90,90]')
    ctx.ok(lo.min() >= 0 and lo.max() < 2*np.pi-1e-12, f'grid {p}: longitude outside [0,360): {lo.min()} {lo.max()}')
    w = w.astype(float)
    ctx.ok(np.all(w >= -1e-15), f'grid {p}: negative weight {w.min()}')
    ctx.ok(abs(w.sum()-1) < 1e-6, f'grid {p}: weights add up to {w.sum()!r}')
    if isinstance(p, tuple):
        ctx.ok(np.ptp(la, axis=0).max() < 1e-12 and np.ptp(lo, axis=1).max() < 1e-12,
               f'grid {p}: longitude is not the first axis')
        l1, o1 = g.oned()
        l1, o1 = l1.to_value(u.rad), o1.to_value(u.rad)
        ctx.ok(l1.shape == (p[0],) and o1.shape == (p[1],), f'grid {p}: oned shapes {l1.shape} {o1.shape}')
        ctx.close(la[0], l1, 'oned latitude', atol=1e-12)
        ctx.close(lo[:, 0], o1, 'oned longitude', atol=1e-12)
        ctx.close(np.diff(l1), np.full(p[0]-1, g.dlat.to_value(u.rad)), f'grid {p}: latitude spacing', atol=1e-10)
        ctx.close(np.diff(o1), np.full(p[1]-1, g.dlon.to_value(u.rad)), f'grid {p}: longitude spacing', atol=1e-10)
        ctx.close([np.degrees(l1[0]), np.degrees(l1[-1]), np.degrees(o1[0])], [-90, 90, 0], f'grid {p}: ends', atol=1e-9)
        ctx.close(g.dlon.to_value(u.deg)*p[1], 360., f'grid {p}: longitudes do not close', atol=1e-9)
        # one weight per latitude circle, proportional to its circumference
        ctx.close(w, ref.weights(la), f'grid {p}: weights', rtol=1e-9, atol=1e-14)
    else:
        ctx.close(w, np.full(shape, 1/p), f'grid {p}: weights of an even grid', rtol=1e-6)
    return la, lo, w


def resolution(p):
    """typical spacing of the elements, radians"""
    if isinstance(p, int):
        return np.sqrt(4*np.pi/p)
    return max(np.pi/(p[0]-1), 2*np.pi/p[1])


def integrals(ctx, rng, p, la, lo, w):
    v = ref.vec(la, lo).reshape(-1, 3)
    w = w.ravel()
    h = resolution(p)
    rectangle = isinstance(p, tuple)
    tag = 'rect' if rectangle else 'spiral'
    for _ in range(4):
        n = unitvec(rng) if rng.random() < .7 else np.array(gen.pick(rng, [[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0]]), float)
        m = v @ n
        half = (w*(m > 1e-12)).sum()+0.5*(w*(np.abs(m) < 1e-12)).sum()
        quarter = (w*np.clip(m, 0, None)).sum()
        first = (w*m).sum()
        second = (w*m*m).sum()
        third = (w*m**3).sum()
        for name, got, want, hh, bound in (
                ('half', half, .5, h, HALF[tag]), ('quarter', quarter, .25, h*h, QUARTER[tag]),
                ('mean direction', first, 0, h*h, FIRST[tag]), ('second moment', second, 1/3, h*h, SECOND[tag]),
                ('third moment', third, 0, h*h, THIRD[tag]), ('exp', (w*np.exp(m)).sum(), np.sinh(1), h*h, EXP[tag])):
            e = abs(got-want)
            ctx.margin(f'{tag} {name} error/resolution', e/hh)
            ctx.event('integrals judged')
            ctx.ok(e <= bound*hh+1e-6, f'grid {p}: {name} from {n.tolist()} is {got!r} instead of {want:.6f} '
                   f'(bound {bound*hh:.3g})')
    # every direction has an element nearby
    for _ in range(20):
        d = np.arccos(np.clip((v @ unitvec(rng)).max(), -1, 1))
        ctx.margin(f'{tag} distance to the nearest element/resolution', d/h)
        ctx.ok(d <= COVER[tag]*h, f'grid {p}: no element within {d:.4f} rad of a direction (spacing {h:.4f})')
    if not rectangle and p <= 3000:
        # no two elements coincide
        for i in rng.integers(0, p, 12):
            dots = v @ v[i]
            dots[i] = -1
            d = np.arccos(np.clip(dots.max(), -1, 1))
            ctx.margin('spiral distance between elements/resolution', d/h)
            ctx.ok(d >= 0.4*h, f'grid {p}: elements only {d:.5f} rad apart (spacing {h:.4f})')


# error bounds in units of the spacing (squared for smooth functions), about twice the largest error observed
HALF = dict(rect=0.35, spiral=0.2)
QUARTER = dict(rect=0.13, spiral=0.04)
FIRST = dict(rect=1e-6, spiral=0.025)
SECOND = dict(rect=0.12, spiral=0.015)
THIRD = dict(rect=1e-6, spiral=0.03)
EXP = dict(rect=0.07, spiral=0.03)
COVER = dict(rect=0.75, spiral=1.0)


def one_grid(ctx, rng):
    p = size(rng, ctx.thorough)
    g = CoordinateGrid.new(p)
    la, lo, w = shape_and_points(ctx, p, g)
    la2, lo2 = (SpiralGrid(p) if isinstance(p, int) else RectangularGrid(*p)).grid()
    ctx.ok(np.array_equal(la2.to_value(u.rad), la) and np.array_equal(lo2.to_value(u.rad), lo),
           f'grid {p}: factory and constructor differ')
    ctx.event('grids judged')
    for k in range(6):
        a, b = gen.lat(rng), gen.lon(rng)
        if k < 2:
            i = int(rng.integers(la.size))
            a, b = np.degrees(la.ravel()[i]), np.degrees(lo.ravel()[i])+float(gen.pick(rng, [0, 360]))
            ctx.event('viewpoints on an element judged')
            m = g.cos_angle_from_disk_center(a*u.deg, b*u.deg)
            ctx.ok(abs(m.ravel()[i]-1) < 1e-9, f'grid {p}: cosine toward the viewpoint is {m.ravel()[i]!r}')
            m = g.cos_angle_from_disk_center(-a*u.deg, (b+180)*u.deg)
            ctx.ok(abs(m.ravel()[i]+1) < 1e-9, f'grid {p}: cosine opposite to the viewpoint is {m.ravel()[i]!r}')
        q = gen.Units(rng)
        m = g.cos_angle_from_disk_center(q(a, 'angle'), q(b, 'angle'))
        ctx.close(np.asarray(m), ref.mu(la, lo, np.radians(a), np.radians(b)), f'grid {p}: cosine from ({a},{b})',
                  rtol=0, atol=1e-11)
        ctx.event('cosine arrays judged')
    if (isinstance(p, int) and p >= 50) or (isinstance(p, tuple) and min(p) >= 12):
        integrals(ctx, rng, p, la, lo, w)
    if la.size > 1:
        ctx.key(p, ctx.current[1])
    ctx.sample(dict(grid=p, n=la.size))


def equal(ctx, rng):
    def answer(a, b, mixed):
        try:
            r = (a == b)
        except TypeError:
            ctx.ok(mixed, 'comparing two grids of one kind raised TypeError')
            return False
        ctx.ok(r is True or r is False or isinstance(r, np.bool_), f'comparison gives {r!r}')
        if not mixed:
            ctx.ok((a != b) != bool(r), '== and != disagree')
        return bool(r)
    for _ in range(6):
        n = int(rng.integers(1, 500))
        s = [n, n, n+1, int(rng.integers(1, 500))]
        a, b = int(rng.integers(2, 60)), int(rng.integers(2, 60))
        r = [(a, b), (a, b), (b, a), (a, b+1), (a+1, b)]
        for x in s+r:
            for y in s+r:
                mixed = isinstance(x, int) != isinstance(y, int)
                got = answer(CoordinateGrid.new(x), CoordinateGrid.new(y), mixed)
                ctx.ok(got == (x == y), f'grids {x} and {y} compare {"equal" if got else "different"}')
                ctx.event('comparisons judged')
    ctx.key('eq', ctx.current[1])


def fixed(ctx, rng):
    """the default sizes and a resolution ladder"""
    g = RectangularGrid()
    ctx.ok((g.nlat, g.nlon) == (500, 1000), f'default grid {(g.nlat, g.nlon)}')
    errs = []
    for p in (100, 1600, 25600):
        gr = CoordinateGrid.new(p)
        la, lo, w = shape_and_points(ctx, p, gr)
        errs.append(np.mean([abs((w*np.clip(ref.vec(la, lo) @ n, 0, None)).sum()-.25) for n in map(lambda _: unitvec(rng), range(30))]))
    ctx.ok(errs[2] < errs[1]/2 < errs[0]/4, f'spiral: projected-area error does not shrink with resolution: {errs}')
    errs = []
    for p in ((12, 24), (48, 96), (192, 384)):
        gr = CoordinateGrid.new(p)
        la, lo, w = shape_and_points(ctx, p, gr)
        errs.append(np.mean([abs((w*np.clip(ref.vec(la, lo) @ n, 0, None)).sum()-.25) for n in map(lambda _: unitvec(rng), range(30))]))
    ctx.ok(errs[2] < errs[1]/2 < errs[0]/4, f'rectangle: projected-area error does not shrink with resolution: {errs}')
    ctx.event('resolution ladders judged', 2)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('grids', one_grid, 240, 4000), ('equality', equal, 8, 100), ('ladder', fixed, 1, 20)]
