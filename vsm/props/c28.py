"""Omitted arguments mean their documented defaults."""
import numpy as np
from astropy import units as u
from vspec_vsm import xoflares
from vspec_vsm.config import MSH
from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid
from vspec_vsm.faculae import Facula, FaculaCollection, FaculaGenerator
from vspec_vsm.flares import FlareCollection, FlareGenerator
from vspec_vsm.granules import Granulation
from vspec_vsm.spots import SpotCollection, SpotGenerator, StarSpot
from vspec_vsm.star import Star

from vsm import gen
from vsm.props.c09 import canon, same
from vsm.props.c16 import flare_state

RULE = ('twins built with random required arguments, one with a random subset of the optional arguments left out and one with '
        'the documented values written out, driven through the same life (ageing, mapping, births and flares from equally '
        'seeded generators, coverage, plots) and compared exactly. Distinct: a different (class, arguments, omitted subset); '
        'non-trivial: at least one argument was omitted.')
NEED = {'spot twins': 25, 'facula twins': 25, 'spot generator twins': 12, 'facula generator twins': 12, 'flare generator twins': 12,
        'star twins': 20, 'coverage twins': 60, 'default grids judged': 6, 'plot twins': 3, 'flare query twins': 12}
ASSUMPTIONS = ['defaults of random generators and granulation seeds are random by design and not part of the property']


def omit(rng, full):
    """a random non-empty subset of the optional arguments stays out"""
    names = list(full)
    out = [n for n in names if rng.random() < .5] or [gen.pick(rng, names)]
    return {k: v for k, v in full.items() if k not in out}, out


def pair(ctx, a, b, what, **info):
    ctx.ok(same(canon(a), canon(b)), f'{what}: leaving out {info.get("omitted")} differs from the documented default', first=a, second=b, **info)


def spots(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s = gen.spot(rng, radius, big=False)
    gm = CoordinateGrid.new(gen.grid(rng))
    full = dict(area_over_umbra_area=5, is_growing=True, growth_rate=.52/u.day, decay_rate=10.89*MSH/u.day)
    some, out = omit(rng, full)
    q = gen.CANONICAL
    base = (q(s['lat'], 'angle'), q(s['lon'], 'angle'), q(s['area_max'], 'area'), q(s['area'], 'area'), q(s['tu'], 'temp'), q(s['tp'], 'temp'))
    one, two = StarSpot(*base, **some, gridmaker=gm), StarSpot(*base, **full, gridmaker=gm)
    info = dict(omitted=out, spec=s)
    for t in [0.] + [gen.loguni(rng, .01, 30) for _ in range(4)]:
        one.age(t*u.day)
        two.age(t*u.day)
        pair(ctx, gen.spot_state(one), gen.spot_state(two), f'spot aged by {t:.3g} d', **info)
        pair(ctx, list(one.map_pixels(radius*u.km).values()), list(two.map_pixels(radius*u.km).values()), 'spot map', **info)
    o = gen.obs(*gen.view(rng))
    # a sampled integral with the default number of points is as good as a finer one
    fine = two.surface_fraction(o, radius*u.km, n_points=20001)
    a = two.angular_radius(radius*u.km).to_value(u.rad)
    if a > .05:
        ctx.ok(abs(one.surface_fraction(o, radius*u.km)-fine) <= 2e-3*max(a**2, 1e-9)+1e-9,
               f'surface fraction with the default sampling {one.surface_fraction(o, radius*u.km)!r}, finer {fine!r}', **info)
    ctx.event('spot twins')
    ctx.key('spot', s, out)
    # faculae
    f = gen.facula(rng, radius, big=False)
    while abs(gen.facula_contrasts(f)[0]-gen.facula_contrasts(f)[1]) < 1e-3:
        f = gen.facula(rng, radius, big=False)
    kw = dict(lat=q(f['lat'], 'angle'), lon=q(f['lon'], 'angle'), r_max=q(f['rmax'], 'len'), r_init=q(f['r'], 'len'), depth=q(f['depth'], 'len'),
              lifetime=q(f['life'], 'time'), floor_teff_slope=q(f['fslope'], 'slope'), floor_teff_min_rad=q(f['fmin'], 'len'),
              floor_teff_base_dteff=q(f['fbase'], 'temp'), wall_teff_slope=q(f['wslope'], 'slope'), wall_teff_intercept=q(f['wint'], 'temp'),
              gridmaker=gm)
    one, two = Facula(**kw), Facula(**kw, growing=True)
    for t in [0.] + [gen.loguni(rng, .01, 3)*f['life'] for _ in range(3)]:
        pair(ctx, gen.facula_state(one), gen.facula_state(two), f'facula aged by {t:.3g} d', omitted=['growing'], spec=f)
        one.age(t*u.day)
        two.age(t*u.day)
    pair(ctx, one.map_pixels(radius*u.km), two.map_pixels(radius*u.km), 'facula map', omitted=['growing'], spec=f)
    ctx.event('facula twins')
    ctx.key('facula', f)
    ctx.sample(info)


def generators(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    seed = int(rng.integers(1 << 40))
    two_rngs = lambda: (np.random.default_rng(seed), np.random.default_rng(seed))
    q = gen.CANONICAL
    gp = gen.grid(rng)
    # spots
    s = gen.spotgen_spec(rng, radius)
    s['sigma'] = float(gen.pick(rng, [0., .05]))
    full = dict(growth_rate=.52/u.day, decay_rate=10.89*MSH/u.day, init_area=10*MSH, distribution='solar', coverage=.2)
    some, out = omit(rng, full)
    base = (q(s['mean'], 'area'), s['sigma'], q(s['tu'], 'temp'), q(s['tp'], 'temp'))
    r1, r2 = two_rngs()
    g1, g2 = SpotGenerator(*base, **some, grid_params=gp, rng=r1), SpotGenerator(*base, **full, grid_params=gp, rng=r2)
    info = dict(omitted=out, spec=s)
    pair(ctx, [g1.mean_area.to_value(MSH), g1.mean_lifetime.to_value(u.day)], [g2.mean_area.to_value(MSH), g2.mean_lifetime.to_value(u.day)],
         'mean area and lifetime', **info)
    one = g2.get_n_spots_to_birth(1*u.day, radius*u.km)
    t = float(rng.uniform(1, 5)/one)*u.day
    pair(ctx, g1.get_n_spots_to_birth(t, radius*u.km), g2.get_n_spots_to_birth(t, radius*u.km), 'expected births', **info)
    pair(ctx, [gen.spot_state(x) for x in g1.birth_spots(t, radius*u.km)], [gen.spot_state(x) for x in g2.birth_spots(t, radius*u.km)], 'births', **info)
    pair(ctx, [gen.spot_state(x) for x in g1.generate_mature_spots(.01, radius*u.km)],
         [gen.spot_state(x) for x in g2.generate_mature_spots(.01, radius*u.km)], 'mature spots', **info)
    ctx.event('spot generator twins')
    ctx.key('spotgen', s, out)
    # faculae
    f = gen.facgen_spec(rng, radius)
    base = (q(f['r'], 'len'), f['rsig'], q(f['depth'], 'len'), q(f['life'], 'time'), f['lsig'], q(f['fslope'], 'slope'), q(f['fmin'], 'len'),
            q(f['fbase'], 'temp'), q(f['wslope'], 'slope'), q(f['wint'], 'temp'), f['cov'])
    r1, r2 = two_rngs()
    g1, g2 = FaculaGenerator(*base, grid_params=gp, rng=r1), FaculaGenerator(*base, dist='iso', grid_params=gp, rng=r2)
    t = float(rng.uniform(1, 5)/g2.get_n_faculae_expected(1*u.day, radius*u.km))*u.day
    pair(ctx, [gen.facula_state(x) for x in g1.birth_faculae(t, radius*u.km)], [gen.facula_state(x) for x in g2.birth_faculae(t, radius*u.km)],
         'facula births', omitted=['dist'], spec=f)
    ctx.event('facula generator twins')
    # flares
    s = gen.flaregen_spec(rng)
    full = dict(alpha=-.829, beta=26.87, min_energy=1e33*u.erg, cluster_size=2)
    some, out = omit(rng, full)
    base = (q(s['tm'], 'temp'), q(s['ts'], 'temp'), q(s['fm'], 'time'), s['fs'])
    r1, r2 = two_rngs()
    g1, g2 = FlareGenerator(*base, **some, rng=r1), FlareGenerator(*base, **full, rng=r2)
    info = dict(omitted=out, spec=s)
    e = 10**np.linspace(32, 36, 9)*u.erg
    for name in ('frequency_greater_than', 'pdf', 'cdf'):
        pair(ctx, getattr(g1, name)(e), getattr(g2, name)(e), name, **info)
    pair(ctx, g1.get_ntotal(3*u.day), g2.get_ntotal(3*u.day), 'expected flares', **info)
    t = 30/float(g2.get_ntotal(1*u.day))*u.day
    pair(ctx, [flare_state(x) for x in g1.generate_flare_series(t)], [flare_state(x) for x in g2.generate_flare_series(t)], 'flares', **info)
    ctx.event('flare generator twins')
    ctx.key('flaregen', s, out)


def stars(ctx, rng):
    spec = gen.star(rng, nspots=int(rng.integers(1, 4)), nfac=int(rng.integers(0, 3)), big=False)
    spec['gran'] = None
    full = dict(grid_params=1000, flare_generator=FlareGenerator.off(), spot_generator=SpotGenerator.off(), fac_generator=FaculaGenerator.off(),
                granulation=Granulation.off(), u1=0, u2=0)
    some, out = omit(rng, full)
    st = []
    for kw in (some, full):
        gm = CoordinateGrid.new(60)
        st.append(Star(spec['teff']*u.K, spec['radius']*u.km, spec['period']*u.day,
                       SpotCollection(*[gen.mk_spot(s, gridmaker=gm) for s in spec['spots']], gridmaker=gm),
                       FaculaCollection(*[gen.mk_facula(f, gridmaker=gm) for f in spec['faculae']], gridmaker=gm), **kw))
    info = dict(omitted=out, spec=spec)
    for k in range(3):
        o = gen.obs(*gen.view(rng, spec))
        pair(ctx, st[0].map, st[1].map, 'map', **info)
        pair(ctx, st[0].add_faculae_to_map(**{k+'0': v for k, v in o.items()}), st[1].add_faculae_to_map(**{k+'0': v for k, v in o.items()}), 'map with faculae', **info)
        p = gen.planet(rng, spec['radius'])
        pair(ctx, st[0].calc_coverage(o, .3, **gen.planet_kw(p)), st[1].calc_coverage(o, .3, **gen.planet_kw(p)), 'coverage', **info)
        pair(ctx, st[0].average_teff(o), st[1].average_teff(o), 'average temperature', **info)
        t = np.linspace(0, 5, 4)*u.hr
        pair(ctx, np.asarray(st[0].get_granulation_coverage(t)), np.asarray(st[1].get_granulation_coverage(t)), 'granulation', **info)
        dt = gen.loguni(rng, .01, 5)*u.day
        for s in st:
            s.age(dt)
            s.birth_spots(dt)
            s.birth_faculae(dt)
            s.get_flares_over_observation(dt)
        pair(ctx, [len(s.flares.flares) for s in st[:1]], [len(st[1].flares.flares)], 'flares', **info)
    pair(ctx, [gen.spot_state(s) for s in st[0].spots.spots], [gen.spot_state(s) for s in st[1].spots.spots], 'spots', **info)
    pair(ctx, [gen.facula_state(s) for s in st[0].faculae.faculae], [gen.facula_state(s) for s in st[1].faculae.faculae], 'faculae', **info)
    ctx.event('star twins')
    ctx.key('star', spec, out)


def coverage(ctx, rng):
    spec = gen.star(rng, big=False)
    st = gen.mk_star(spec)
    o = gen.obs(*gen.view(rng, spec))
    full = dict(granulation_fraction=0., orbit_radius=1*u.AU, planet_radius=1*u.R_earth, phase=90*u.deg, inclination=0*u.deg)
    if rng.random() < .6:   # some values of a real transit, the rest left out
        p = gen.planet(rng, spec['radius'])
        if rng.random() < .4:
            p['a'] = float(spec['radius']*rng.uniform(.2, .9))      # in front of or behind the star wherever it is on its orbit
        full.update({k: v for k, v in gen.planet_kw(p).items() if rng.random() < .6})
        doc = dict(granulation_fraction=0., orbit_radius=1*u.AU, planet_radius=1*u.R_earth, phase=90*u.deg, inclination=0*u.deg)
        some = {k: v for k, v in full.items() if not (np.isscalar(v) and v == doc[k]) and not (not np.isscalar(v) and v is not None and v == doc[k])}
        out = [k for k in full if k not in some]
    else:
        some, out = omit(rng, full)
    if full['planet_radius'] > st.radius:
        full['planet_radius'] = some['planet_radius'] = st.radius*.5
    a, b = st.calc_coverage(o, **some), st.calc_coverage(o, **full)
    pair(ctx, a, b, 'coverage', omitted=out, spec=spec)
    # without a planet nothing is occulted, and without granulation nothing is granulated
    t, c, f = st.calc_coverage(o)
    ctx.ok(all(v == 0 for v in c.values()) and f == 1, 'a coverage request without a planet occults something', spec=spec)
    z = st.calc_coverage(o, granulation_fraction=0.)[0]
    pair(ctx, t, z, 'coverage', omitted=['granulation_fraction'], spec=spec)
    ctx.event('coverage twins')
    ctx.key('coverage', spec, out)
    if rng.random() < .3:
        fl = FlareCollection([gen.mk_flare(gen.flare_spec(rng)) for _ in range(int(rng.integers(1, 9)))])
        here = {'lat': 0*u.deg, 'lon': 0*u.deg}
        w = (0*u.day, 3*u.day)
        pair(ctx, fl.get_flare_integral_in_timeperiod(*w), fl.get_flare_integral_in_timeperiod(*w, here), 'flare integral', omitted=['sub_obs_coords'])
        pair(ctx, fl.get_visible_flares_in_timeperiod(*w), fl.get_visible_flares_in_timeperiod(*w, sub_obs_coords=here), 'visible flares', omitted=['sub_obs_coords'])
        tt = np.linspace(0, 3, 40)
        pair(ctx, xoflares.get_light_curvenp(tt, 1., .2, 3.), xoflares.get_light_curvenp(tt, 1., .2, 3., texp=None), 'light curve', omitted=['texp'])
        ctx.event('flare query twins')


def grids(ctx, rng):
    want = RectangularGrid(500, 1000)
    base = (10*u.deg, 20*u.deg, 100*MSH, 50*MSH, 2500*u.K, 2700*u.K)
    k = ctx.current[1] % 6
    g = [lambda: RectangularGrid(), lambda: SpotCollection(), lambda: FaculaCollection(), lambda: StarSpot(*base),
         lambda: SpotGenerator(100*MSH, .2, 2500*u.K, 2700*u.K), lambda: gen.mk_facula(gen.facula(rng, 7e5))][k]()
    name = type(g).__name__
    gm = g if k == 0 else g.gridmaker
    ctx.ok(isinstance(gm, RectangularGrid) and gm == want, f'{name} without grid parameters: not a 500 x 1000 grid but {vars(gm)}')
    if k == 3:
        ctx.ok(gen.spot_shape(g) == (1000, 500), f'a spot without grid parameters maps to {gen.spot_shape(g)}')
    if k in (1, 2):
        ctx.ok(len(g.spots if k == 1 else g.faculae) == 0, f'a new {name} is not empty')
    ctx.event('default grids judged')
    ctx.key('grid', name)


def plots(ctx, rng):
    import matplotlib.pyplot as plt
    from vsm.props.c24 import Recorder
    spec = gen.star(rng, nspots=2, nfac=1)
    nlat, nlon = int(rng.integers(6, 12)), int(rng.integers(8, 16))
    spec['grid'] = (nlat, nlon)
    st = gen.mk_star(spec)
    la, lo = float(rng.uniform(-60, 60))*u.deg, float(rng.uniform(0, 360))*u.deg
    full = dict(ax=None, orbit_radius=1*u.AU, radius=1*u.R_earth, phase=90*u.deg, inclination=0*u.deg, vmin=None, vmax=None)
    if rng.random() < .6:   # some values of a real transit, the rest left out
        doc = dict(full)
        p = gen.planet(rng, spec['radius'])
        p['a'] = float(spec['radius']*rng.uniform(.2, .9))      # in front of the star wherever it is on its orbit
        p['phase'] = float(rng.uniform(130, 230))
        p['rp'] = float(spec['radius']*rng.uniform(.2, .6))     # and wide enough for the map to show where
        given = gen.pick(rng, [('phase',), ('phase',), ('inclination',), (), ('phase', 'inclination')])
        full.update({k: v for k, v in gen.mask_kw(p).items() if k in ('orbit_radius', 'radius')+given})
        some = {k: v for k, v in full.items() if v is not doc[k]}
        out = [k for k in full if k not in some]
    else:
        some, out = omit(rng, full)
    if full['radius'] > st.radius:
        full['radius'] = some['radius'] = st.radius*.5
    seen = []
    for kw in (some, full):
        try:
            with Recorder() as r:
                st.plot_surface(la, lo, nlat=nlat, nlon=nlon, **kw)
        finally:
            plt.close('all')
        seen.append([(n, [np.asarray(x, float) for x in a], {k: (str(v) if not isinstance(v, np.ndarray) else v) for k, v in kk.items() if k != 'transform'})
                     for n, _, a, kk in r.calls])
    pair(ctx, seen[0], seen[1], 'plot', omitted=out, spec=spec)
    ctx.event('plot twins')
    ctx.key('plot', spec, out)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('spots', spots, 60, 2000), ('generators', generators, 30, 600), ('stars', stars, 40, 600), ('coverage', coverage, 150, 4000),
             ('grids', grids, 12, 24), ('plots', plots, 14, 120)]
