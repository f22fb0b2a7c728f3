"""Spots paint spherical caps, and the coolest temperature wins."""
import numpy as np
from astropy import units as u

from vsm import gen, judges, mission, mon, ref

RULE = ('random spot populations (piled up, polar, across longitude 0, hotter than the star, tiny to almost the '
        'whole sphere) on both grid kinds and in any order; every surface map is compared element by element with '
        'the coolest-cap rule computed from great-circle distances. Elements within 1e-6 rad of an edge are not '
        'judged. Distinct: a different (population, star, grid); non-trivial: some element lies in a spot.')
NEED = {'surface maps judged': 500, 'spotted elements judged': 20000, 'spot coverages judged': 200,
        'single-spot maps judged': 400, 'spot radii judged': 400, 'star maps judged': 200, 'orders compared': 100, 'crowds judged': 8,
        'edges next to an element judged': 150, 'fine grids judged': 6}
ASSUMPTIONS = ['umbra not hotter than penumbra', 'spot area at most the stellar surface']
TABLE = {'SpotCollection.map_pixels': judges.spot_map, 'SpotCollection.get_coverage': judges.spot_share,
         'StarSpot.map_pixels': judges.one_spot_map, 'StarSpot.angular_radius': judges.spot_angular_radius,
         'StarSpot.radius': judges.spot_radius, 'Star.map': judges.star_map}


@mon.monitored(TABLE)
def population(ctx, rng, grid=None):
    n = int(gen.pick(rng, [0, 1, 1, 2, 3, 5, 9]))
    spec = gen.star(rng, nspots=n, nfac=0, big_grid=bool(rng.random() < .25))
    spec['grid'] = grid or spec['grid']
    k = rng.random()
    if k < 0.25:
        for s in spec['spots']:
            s['lat'] = float(gen.pick(rng, [90., -90., 85., -88.]))
    elif k < 0.5:
        for s in spec['spots']:
            s['lon'] = float(gen.pick(rng, [0., 360., 359.5, 0.5, -3., 365.]))
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    st = gen.mk_star(spec, q, via_add=bool(rng.random() < .5))
    m = st.map
    for s in st.spots.spots:
        s.radius
    st.spots.get_coverage(st.radius)
    # the temperature a collection is asked for, and another radius
    st.spots.map_pixels(q(spec['radius']*float(rng.uniform(1, 3)), 'len'), q(float(rng.uniform(2000, 7000)), 'temp'))
    if n > 1:
        spec2 = gen.clone(spec)
        perm = rng.permutation(n)
        spec2['spots'] = [spec['spots'][i] for i in perm]
        m2 = gen.mk_star(spec2, q if q is gen.CANONICAL else gen.Units(rng)).map
        la, lo = judges.grid_of(st)
        _, amb = judges.spot_map_ref(st.spots.spots, la, lo, judges.km(st.radius), 0)
        ctx.ok(np.all(amb | (np.abs(m.to_value(u.K)-m2.to_value(u.K)) < 1e-6)),
               'the map depends on the order the spots were added in', spec=spec, order=perm)
        ctx.event('orders compared')
    if n:
        ctx.key(spec)
    ctx.sample(spec)


def full(ctx, rng):
    """grids as fine as the default one"""
    population(ctx, rng, gen.full_grid(rng))
    ctx.event('fine grids judged')


@mon.monitored(TABLE)
def edges(ctx, rng):
    """a ring of spots whose edges sweep slowly over a fine grid: areas differing by one part in 1e3"""
    spec = gen.star(rng, nspots=1, nfac=0, big_grid=True)
    s = spec['spots'][0]
    st = gen.mk_star(spec)
    spot = st.spots.spots[0]
    for f in np.linspace(0.2, 1.0, 6):
        spot.area_current = gen.CANONICAL(s['area']*float(f), 'area')
        st.map
        st.spots.get_coverage(st.radius)
        ctx.key(spec, f)


@mon.monitored(TABLE)
def crowd(ctx, rng):
    """many small overlapping spots"""
    n = int(gen.loguni(rng, 12, 200))
    spec = gen.star(rng, nspots=n, nfac=0, big=False)
    st = gen.mk_star(spec, via_add=bool(rng.random() < .5))
    st.map
    st.spots.get_coverage(st.radius)
    ctx.event('crowds judged')
    ctx.key('crowd', spec)


@mon.monitored(TABLE)
def rim(ctx, rng):
    """a spot whose edge runs just inside or just outside a chosen element"""
    spec = gen.star(rng, nspots=1, nfac=0, big_grid=bool(rng.random() < .5))
    la, lo = ref.spiral(spec['grid']) if isinstance(spec['grid'], int) else ref.rect(*spec['grid'])
    la, lo = la.ravel(), lo.ravel()
    f = spec['spots'][0]
    k = rng.random()
    if k < .4:
        f['lat'] = float(gen.pick(rng, [-1, 1]))*(90-gen.loguni(rng, 1e-3, 3))
    for _ in range(5):
        d = ref.sep(la, lo, np.radians(f['lat']), np.radians(f['lon']))
        i = int(rng.integers(la.size)) if rng.random() < .5 else int(np.argsort(d)[int(rng.integers(min(6, la.size)))])
        eps = gen.loguni(rng, 1e-6, 1e-2)*float(gen.pick(rng, [-1, 1]))
        a = float(d[i]*(1+eps))
        if not 1e-4 < a < 2.8 or abs(a-d[i]) < 4e-6:
            f['lon'] = gen.lon(rng)
            continue
        f['area'] = float(4*np.pi*spec['radius']**2*np.sin(a/2)**2/ref.MSH_KM2)
        if rng.random() < .4:         # the edge of the umbra, if the spot can be that large
            b = np.sin(a/2)**2*f['ratio']
            if b < .98:
                f['area'] = float(4*np.pi*spec['radius']**2*b/ref.MSH_KM2)
        f['area_max'] = f['area']
        gen.mk_star(spec).map
        ctx.event('edges next to an element judged')
        ctx.key('rim', spec)
        f['lat'], f['lon'] = (f['lat'] if k < .4 else gen.lat(rng)), gen.lon(rng)


@mon.monitored(TABLE)
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=8)
    st.map
    st.spots.get_coverage(st.radius)
    ctx.key(spec, ops)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('population', population, 500, 8000), ('edges', edges, 60, 800), ('history', history, 60, 1000),
             ('crowd', crowd, 16, 400), ('rim', rim, 80, 2000), ('full', full, 6, 100)]
