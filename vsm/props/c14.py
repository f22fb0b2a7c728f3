"""Only relative longitudes and orientation matter."""
import numpy as np
from astropy import units as u
from vspec_vsm.flares import FlareCollection

from vsm import gen, judges, pairs, ref

RULE = ('pairs of runs on stars with spots, faculae, limb darkening and a planet: everything rotated by a whole number of '
        'elements, single longitudes wound by multiples of 360 degrees, latitudes mirrored, longitudes mirrored (planet '
        'moved along); coverage, occultation, planet fraction, average temperature, spot coverage and flare visibility '
        'of both runs are compared. Distinct: a different (star, viewpoint, transformation); non-trivial: the star has '
        'a feature or an occulting planet.')
NEED = {'rotations compared': 100, 'windings compared': 150, 'mirrored latitudes compared': 80,
        'mirrored longitudes compared': 80, 'comparisons with faculae': 100, 'comparisons with an occulted disk': 60,
        'flare visibilities compared': 300}
ASSUMPTIONS = ['elements exactly on the edge of a feature, and wall borders exactly on an element, may go either way',
               'not exactly at quadrature, where rounding decides on which side the planet is']


def scenario(rng, kind):
    spec = pairs.generic(gen.star(rng, kind=kind, big=True), rng)
    for s in spec['spots']+spec['faculae']:
        if spec['faculae']:
            s['lat'] = float(np.clip(s['lat'], -89.5, 89.5))
    la, lo = pairs.generic_view(rng) if spec['faculae'] else gen.view(rng, spec)
    p = gen.planet(rng, spec['radius'])
    if rng.random() < .6:      # often really in front
        p['phase'] = 180+float(rng.uniform(-.9, .9))*float(np.degrees(np.arcsin(min(1, spec['radius']/p['a']))))
        p['inc'] = float(np.degrees(np.arccos(rng.uniform(-.8, .8)*spec['radius']/p['a'])))
    if abs(np.cos(np.radians(p['phase']))) < 1e-6:      # quadrature: the side is decided by rounding
        p['phase'] += .01
    return spec, la, lo, p


def observe(ctx, spec, la, lo, p, g=.1):
    st = gen.mk_star(spec)
    cov = st.calc_coverage(gen.obs(la, lo), granulation_fraction=g, **gen.planet_kw(p))
    avg = float(st.average_teff(gen.obs(la, lo)).to_value(u.K))
    return st, cov, avg, float(st.spots.get_coverage(st.radius))


def compare(ctx, base, other, spec, la, lo, p, what, **d):
    st, cov, avg, sc = base
    if pairs.spot_edge(st):
        ctx.event('skipped: an element lies on an edge')
        return
    slack = pairs.facula_slack(st, np.radians(la), np.radians(lo))
    # an element exactly at the limb carries no weight; only the planet's smeared edge needs room
    pairs.coverage_same(ctx, cov, other[1], slack, what, tol=1e-7, ctol=2e-6, spec=spec, view=(la, lo), planet=p, **d)
    ctx.ok(abs(avg-other[2]) <= 1e-3+8000*slack, f'{what}: average temperature {other[2]!r} instead of {avg!r}', spec=spec, **d)
    ctx.ok(abs(sc-other[3]) <= 1e-9, f'{what}: spot coverage {other[3]!r} instead of {sc!r}', spec=spec, **d)
    ctx.event(what+' compared')
    if spec['faculae']:
        ctx.event('comparisons with faculae')
    if sum(float(v) for v in cov[1].values()) > 0:
        ctx.event('comparisons with an occulted disk')
    if spec['spots'] or spec['faculae'] or sum(cov[1].values()) > 0:
        ctx.key(spec, la, lo, p, what, sorted(d.items()))


def turned(spec, fn):
    s = gen.clone(spec)
    for f in s['spots']+s['faculae']:
        f['lat'], f['lon'] = fn(f['lat'], f['lon'])
    return s


def rotation(ctx, rng):
    spec, la, lo, p = scenario(rng, 'rect')
    base = observe(ctx, spec, la, lo, p)
    n = spec['grid'][1]
    for k in {int(rng.integers(1, n)), int(rng.integers(1, n)), n//2, -1}:
        d = 360.*k/n
        s2 = turned(spec, lambda a, b: (a, b+d))
        compare(ctx, base, observe(ctx, s2, la, lo+d, p), spec, la, lo, p, 'rotations', elements=k)
    ctx.sample(dict(spec=spec, view=(la, lo), planet=p))


def winding(ctx, rng):
    spec, la, lo, p = scenario(rng, None)
    base = observe(ctx, spec, la, lo, p)
    feats = spec['spots']+spec['faculae']
    for _ in range(3):
        i = int(rng.integers(-2, len(feats))) if rng.random() < .7 else -2
        m = 360.*float(gen.pick(rng, [1, -1, 2, -3, 40, -200]))
        s2, lo2, p2 = gen.clone(spec), lo, dict(p)
        if i == -2:
            lo2 = lo+m
        elif i == -1:
            p2['phase'] += m
        else:
            (s2['spots']+s2['faculae'])[i]['lon'] += m
        compare(ctx, base, observe(ctx, s2, la, lo2, p2), spec, la, lo, p, 'windings', which=i, by=m)


def mirror_lat(ctx, rng):
    spec, la, lo, p = scenario(rng, 'rect')
    base = observe(ctx, spec, la, lo, p)
    s2 = turned(spec, lambda a, b: (-a, b))
    compare(ctx, base, observe(ctx, s2, -la, lo, dict(p, inc=180-p['inc'])), spec, la, lo, p, 'mirrored latitudes')


def mirror_lon(ctx, rng):
    spec, la, lo, p = scenario(rng, 'rect')
    base = observe(ctx, spec, la, lo, p)
    s2 = turned(spec, lambda a, b: (a, -b))
    compare(ctx, base, observe(ctx, s2, la, -lo, dict(p, phase=360-p['phase'])), spec, la, lo, p, 'mirrored longitudes')


def flares(ctx, rng):
    specs = [gen.flare_spec(rng) for _ in range(8)]
    la, lo = gen.lat(rng), gen.lon(rng)

    def visible(sp, a, b):
        c = FlareCollection([gen.mk_flare(s) for s in sp])
        vis = c.get_visible_flares_in_timeperiod(-1000*u.day, 1000*u.day, gen.obs(a, b))
        return [i for i, f in enumerate(c.flares) if any(f is v for v in vis)]
    m = [float(ref.mu(np.radians(s['lat']), np.radians(s['lon']), np.radians(la), np.radians(lo))) for s in specs]
    sure = {i for i, x in enumerate(m) if abs(x) > 1e-9}
    base = set(visible(specs, la, lo)) & sure
    d = float(rng.uniform(-360, 720))
    alts = [([dict(s, lon=s['lon']+d) for s in specs], la, lo+d, f'rotated by {d}'),
            ([dict(s, lat=-s['lat']) for s in specs], -la, lo, 'mirrored in latitude'),
            ([dict(s, lon=-s['lon']) for s in specs], la, -lo, 'mirrored in longitude'),
            (specs, la, lo+360*float(rng.integers(-2, 3)), 'viewpoint wound'),
            ([dict(s, lon=s['lon']+360.*float(rng.integers(-2, 3))) for s in specs], la, lo, 'flares wound')]
    for s2, a, b, what in alts:
        got = set(visible(s2, a, b)) & sure
        ctx.ok(got == base, f'flares {sorted(got)} are visible when {what}, before {sorted(base)}', flares=specs, view=(la, lo))
        ctx.event('flare visibilities compared')
    ctx.key('flares', ctx.current[1])


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('rotation', rotation, 48, 1200), ('winding', winding, 72, 1500), ('mirror_lat', mirror_lat, 130, 3000),
             ('mirror_lon', mirror_lon, 130, 3000), ('flares', flares, 100, 3000)]
