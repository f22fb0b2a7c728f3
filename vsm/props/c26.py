"""Invalid requests are refused and leave no trace."""
import numpy as np
from astropy import units as u
from vspec_vsm import helpers
from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid, SpiralGrid
from vspec_vsm.faculae import FaculaCollection, FaculaGenerator
from vspec_vsm.spots import SpotCollection

from vsm import gen, ref

RULE = ('a catalogue of about 75 kinds of invalid request with random offending values, fired at fresh objects and in the middle of '
        'random histories of a star; each must raise, and a snapshot of the star (features, flares, map, parameters) before and after must be '
        'identical; the request repeated with valid values must succeed. Distinct: a different kind and value; '
        'non-trivial: every case.')
NEED = {'refusals judged': 1500, 'kinds of refusal judged': 1200, 'snapshots compared': 800, 'valid counterparts accepted': 300,
        'grid refusals': 150, 'quantile refusals': 60, 'distribution refusals': 60, 'coverage refusals': 60, 'circle refusals': 50,
        'bare-number refusals': 60, 'display refusals': 60, 'contrast refusals': 40, 'unit refusals': 400, 'item refusals': 60}
ASSUMPTIONS = ['any exception counts as a refusal']
WRONG_TIME = [5*u.km, 3*u.K, 1/u.day, 2*u.deg, 4*u.m**2]
WRONG_LEN = [5*u.day, 3*u.K, 2*u.deg, 4*u.m**2]
WRONG_ANGLE = [5*u.km, 3*u.K, 2*u.day]
WRONG_ENERGY = [5*u.km, 3*u.K, 2*u.day]


def snapshot(st):
    s = gen.star_state(st)
    s['flares'] = None if st.flares is None else [
        (float(f.tpeak.to_value(u.day)), float(f.energy.to_value(u.erg)), float(f.fwhm.to_value(u.day))) for f in st.flares.flares]
    s['ids'] = [id(x) for x in list(st.spots.spots)+list(st.faculae.faculae)]
    s['map'] = np.asarray(st.map.to_value(u.K)).tobytes()
    s['grids'] = [gen.spot_shape(x) for x in st.spots.spots]+[np.shape(x.gridmaker.zeros()) for x in st.faculae.faculae]
    return repr(s)


def refuse(ctx, kind, name, fn, st=None):
    before = snapshot(st) if st is not None else None
    try:
        r = fn()
    except Exception as e:        # noqa: any refusal will do
        ctx.margin('refusals by type: '+type(e).__name__, 1)
    else:
        ctx.fail(f'{name} is accepted and gives {str(r)[:120]}')
    if st is not None:
        ctx.ok(snapshot(st) == before, f'{name} is refused but changed the star', before=before[:1500], after=snapshot(st)[:1500])
        ctx.event('snapshots compared')
    ctx.event('refusals judged')
    ctx.event('kinds of refusal judged')
    ctx.event(kind+' refusals')
    ctx.key(name, ctx.current[1])


def accept(ctx, name, fn):
    try:
        fn()
    except Exception as e:
        ctx.fail(f'{name} is valid but raises {type(e).__name__}: {e}')
    ctx.event('valid counterparts accepted')


def grids(ctx, rng):
    n, m = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    x = float(rng.uniform(1, 50))
    for bad in (x, str(n), None, [n, m], {n: m}, (x, m), (n, x), (str(n), m), (n, None), x*u.deg, float(n), np.float64(n), (float(n), m), (n, float(m))):
        refuse(ctx, 'grid', f'grid parameters {bad!r}', lambda: CoordinateGrid.new(bad))
    for bad in ((x, m), (n, x), (str(n), m), (None, m), (float(n), m), (n, float(m))):
        refuse(ctx, 'grid', f'RectangularGrid{bad!r}', lambda: RectangularGrid(*bad))
    refuse(ctx, 'grid', 'features on grid parameters 1.5', lambda: gen.mk_spot(gen.spot(rng, gen.RS), grid_params=x))
    refuse(ctx, 'grid', 'a spot collection on grid parameters 1.5', lambda: SpotCollection(grid_params=x))
    refuse(ctx, 'grid', 'a facula collection on grid parameters 1.5', lambda: FaculaCollection(grid_params=str(n)))
    accept(ctx, 'a grid', lambda: (CoordinateGrid.new(n), CoordinateGrid.new((n, m)), RectangularGrid(n, m)))
    for g in (SpiralGrid(n), RectangularGrid(n, m)):
        for other in (n, (n, m), 'grid', None, x*u.deg, np.zeros(3)):
            refuse(ctx, 'grid', f'{type(g).__name__} == {other!r}', lambda: g == other)
    accept(ctx, 'comparison', lambda: (SpiralGrid(n) == SpiralGrid(m), RectangularGrid(n, m) == RectangularGrid(m, n)))
    # display
    s, r = CoordinateGrid.new(n), CoordinateGrid.new((n, m))
    for k in {1, n+1, max(n-1, 1), 2*n}-{n}:
        refuse(ctx, 'display', f'{k} values on a grid of {n} points', lambda: s.display_grid(6, 8, np.zeros(k)))
    refuse(ctx, 'display', 'a 2-d array on a spiral grid', lambda: s.display_grid(6, 8, np.zeros((n, 1))))
    refuse(ctx, 'display', 'a 2-d array on a spiral grid', lambda: s.display_grid(6, 8, np.zeros((8, 6))*u.K))
    refuse(ctx, 'display', 'a 1-d array on a rectangular grid', lambda: r.display_grid(n, m, np.zeros(n*m)))
    refuse(ctx, 'display', 'an extra row', lambda: r.display_grid(n, m, np.zeros((m+1, n))))
    refuse(ctx, 'display', 'an extra column', lambda: r.display_grid(n, m, np.zeros((m, n+1))))
    if n != m:
        refuse(ctx, 'display', 'a transposed array', lambda: r.display_grid(n, m, np.zeros((n, m))))
    accept(ctx, 'display', lambda: (s.display_grid(6, 8, np.zeros(n)), r.display_grid(n, m, np.zeros((m, n)))))
    ctx.sample((n, m, x))


def functions(ctx, rng):
    # quantiles
    g = gen.mk_flaregen(gen.flaregen_spec(rng), np.random.default_rng(1))
    e = gen.loguni(rng, 1e-12, 10)
    for bad in (-e, 1., 1+e, np.array([.2, .5, 1.]), np.array([-e, .5]), np.append(rng.random(20), 1+e), np.nan, np.inf, -np.inf):
        refuse(ctx, 'quantile', f'quantile of {bad!r}', lambda: g.quantile_func(bad))
    accept(ctx, 'quantile', lambda: (g.quantile_func(0.), g.quantile_func(np.array([0., .5, 1-1e-9]))))
    for f in (g.frequency_greater_than, g.pdf, g.cdf):
        for w in WRONG_ENERGY:
            refuse(ctx, 'unit', f'{f.__name__}({w})', lambda: f(w))
    refuse(ctx, 'unit', 'expected flares in a length', lambda: g.get_nexp_greater_than(1e34*u.erg, gen.pick(rng, WRONG_TIME)))
    refuse(ctx, 'unit', 'flare series over a length', lambda: g.generate_flare_series(gen.pick(rng, WRONG_TIME)))
    # circles
    for r in (1+gen.loguni(rng, 1e-9, 1), float(rng.uniform(1.01, 50))):
        a = float(rng.uniform(0, 2*np.pi))
        d = gen.pick(rng, [0., .5, r-1, r, 3.])
        refuse(ctx, 'circle', f'a circle of radius {r} at {d}',
               lambda: helpers.calc_circ_fraction_inside_unit_circle(d*np.cos(a), d*np.sin(a), r))
    accept(ctx, 'circle', lambda: helpers.calc_circ_fraction_inside_unit_circle(.3, .2, .7))
    # bare numbers
    ok = (float(rng.uniform(-80, 80))*u.deg, float(rng.uniform(0, 360))*u.deg, rng.uniform(-80, 80, 5)*u.deg, rng.uniform(0, 360, 5)*u.deg)
    for i in range(4):
        bad = list(ok)
        bad[i] = bad[i].value
        refuse(ctx, 'bare-number', f'proj_ortho with a bare number for argument {i}', lambda: helpers.proj_ortho(*bad))
        bad = list(ok)
        bad[i] = bad[i].value*gen.pick(rng, [u.km, u.K, u.day])
        refuse(ctx, 'unit', f'proj_ortho with {bad[i].unit} for argument {i}', lambda: helpers.proj_ortho(*bad))
    accept(ctx, 'projection', lambda: helpers.proj_ortho(*ok))
    for i in range(4):
        bad = [1*u.deg, 2*u.deg, 3*u.deg, 4*u.deg]
        bad[i] = gen.pick(rng, WRONG_ANGLE)
        refuse(ctx, 'unit', f'angle between with {bad[i].unit} for argument {i}', lambda: helpers.get_angle_between(*bad))
    # distributions
    radius = gen.RS
    name = gen.pick(rng, ['Solar', 'isotropic', '', 'sun', 'uniform', None, 3])
    s = gen.spotgen_spec(rng, radius)
    s.update(dist=name, grid=20)
    sg = gen.mk_spotgen(s, np.random.default_rng(1))
    refuse(ctx, 'distribution', f'spots distributed as {name!r}', lambda: sg.generate_spots(2))
    refuse(ctx, 'distribution', f'spots distributed as {name!r}', lambda: sg.get_coordinates(3))
    refuse(ctx, 'distribution', f'mature spots distributed as {name!r}', lambda: sg.generate_mature_spots(.1, radius*u.km))
    f = gen.facgen_spec(rng, radius)
    args = (f['r']*u.km, f['rsig'], f['depth']*u.km, f['life']*u.day, f['lsig'], 0*u.K/u.km, 0*u.km, -100*u.K, 0*u.K/u.km, 100*u.K)
    for d in ('solar', name):
        refuse(ctx, 'distribution', f'faculae distributed as {d!r}', lambda: FaculaGenerator(*args, .1, dist=d, grid_params=20))
    for c in ('0.1', None, [.1], np.array([.1, .2]), {}):
        refuse(ctx, 'coverage', f'facula coverage {c!r}', lambda: FaculaGenerator(*args, c, grid_params=20))
    accept(ctx, 'a facula generator', lambda: (FaculaGenerator(*args, .1, dist='iso', grid_params=20), FaculaGenerator(*args, 0, grid_params=20)))
    s.update(dist='iso')
    sg = gen.mk_spotgen(s, np.random.default_rng(1))
    for c in (-gen.loguni(rng, 1e-9, 10), 1+gen.loguni(rng, 1e-9, 10), np.inf, -np.inf):
        refuse(ctx, 'coverage', f'mature coverage {c!r}', lambda: sg.generate_mature_spots(c, radius*u.km))
    for w in WRONG_TIME:
        refuse(ctx, 'unit', f'spots born in {w}', lambda: sg.birth_spots(w, radius*u.km))
    for w in WRONG_LEN[:3]:
        refuse(ctx, 'unit', f'spots born on a star of {w}', lambda: sg.birth_spots(1*u.day, w))
        refuse(ctx, 'unit', f'mature spots on a star of {w}', lambda: sg.generate_mature_spots(.01, w))
    fg = gen.mk_facgen(f, np.random.default_rng(1), grid_params=20)
    for w in WRONG_TIME:
        refuse(ctx, 'unit', f'faculae born in {w}', lambda: fg.birth_faculae(w, radius*u.km))
    for w in WRONG_LEN[:3]:
        refuse(ctx, 'unit', f'faculae born on a star of {w}', lambda: fg.birth_faculae(1*u.day, w))


def in_history(ctx, rng):
    """invalid requests to a star that is in the middle of something"""
    spec = gen.star(rng, nspots=int(rng.integers(1, 4)), nfac=int(rng.integers(1, 3)), big=False)
    spec['grid'] = gen.pick(rng, [80, 150, (7, 9), (6, 12)])
    for s in spec['spots']:
        s['d'] = s['area']*.01
    for f in spec['faculae']:
        f['life'] = 50.
    spec['gran'] = dict(mean=.3, amp=.01, period=20., dteff=100., seed=3)
    seed = int(rng.integers(1 << 30))
    sg, fg, lg = gen.spotgen_spec(rng, spec['radius']), gen.facgen_spec(rng, spec['radius']), gen.flaregen_spec(rng, rate=2.)
    st = gen.mk_star(spec, spot_generator=gen.mk_spotgen(sg, np.random.default_rng(seed), grid_params=20),
                     fac_generator=gen.mk_facgen(fg, np.random.default_rng(seed+1), grid_params=20),
                     flare_generator=gen.mk_flaregen(lg, np.random.default_rng(seed+2)))
    st.get_flares_over_observation(1*u.day)
    la, lo = gen.lat(rng), gen.lon(rng)
    ob = gen.obs(la, lo)
    P = dict(orbit_radius=spec['radius']*5*u.km, planet_radius=spec['radius']*.1*u.km, phase=180*u.deg, inclination=90*u.deg)

    def cover(**k):
        return st.calc_coverage(ob, **{**P, **k})
    big = spec['radius']*(1+gen.loguni(rng, 1e-6, 3))*u.km
    t, ln, an = (gen.pick(rng, w) for w in (WRONG_TIME, WRONG_LEN, WRONG_ANGLE))
    req = [
        ('unit', f'ageing by {t}', lambda: st.age(t)), ('unit', 'ageing by a bare number', lambda: st.age(float(rng.uniform(1, 9)))),
        ('unit', f'spots born in {t}', lambda: st.birth_spots(t)), ('unit', f'faculae born in {t}', lambda: st.birth_faculae(t)),
        ('unit', f'an observation of {t}', lambda: st.get_flares_over_observation(t)),
        ('unit', f'flares from {t}', lambda: st.flares.mask(t, 2*u.day)),
        ('unit', f'flare integral to {t}', lambda: st.get_flare_int_over_timeperiod(0*u.day, t, ob)),
        ('unit', f'granulation over {t}', lambda: st.get_granulation_coverage(np.arange(3)*t.unit)),
        ('unit', f'viewpoint latitude {an}', lambda: st.calc_coverage({'lat': an, 'lon': 0*u.deg})),
        ('unit', f'viewpoint longitude {an}', lambda: st.calc_coverage({'lat': 0*u.deg, 'lon': an})),
        ('unit', f'orbit of {ln}', lambda: cover(orbit_radius=ln)), ('unit', f'planet of {ln}', lambda: cover(planet_radius=ln)),
        ('unit', f'phase of {an}', lambda: cover(phase=an)), ('unit', f'inclination of {an}', lambda: cover(inclination=an)),
        ('coverage', 'negative mature coverage', lambda: st.generate_mature_spots(-gen.loguni(rng, 1e-6, 1))),
        ('coverage', 'mature coverage above 1', lambda: st.generate_mature_spots(1+gen.loguni(rng, 1e-6, 1))),
        ('circle', f'eclipse of a planet of {big}', lambda: cover(planet_radius=big, phase=0*u.deg, orbit_radius=1.5*big+5*st.radius,
                                                                  inclination=90*u.deg)),
        ('display', 'display of data of the wrong shape', lambda: st.gridmaker.display_grid(5, 6, np.zeros((2, 3, 4)))),
    ]
    def junk(kind):
        bad = gen.pick(rng, [5, None, 1.5, 'spot', (1, 2)])
        new = [gen.mk_spot(gen.spot(rng, spec['radius']), grid_params=20) if kind == 'spot' else gen.mk_facula(gen.clone(spec['faculae'][0]), grid_params=30)
               for _ in range(int(rng.integers(0, 3)))]
        if not new and rng.random() < .5:
            return bad
        new.insert(int(rng.integers(0, len(new)+1)), bad)
        return new if rng.random() < .5 else tuple(new)
    a, b = junk('spot'), junk('facula')
    req += [('item', f'adding {str(a)[:60]} as spots', lambda: st.add_spot(a)), ('item', f'adding {str(b)[:60]} as faculae', lambda: st.add_fac(b)),
            ('item', f'adding {str(a)[:60]} to the spot collection', lambda: st.spots.add_spot(a)),
            ('item', f'adding {str(b)[:60]} to the facula collection', lambda: st.faculae.add_faculae(b))]
    order = rng.permutation(len(req))[:9]
    for i in order:
        kind, name, fn = req[int(i)]
        refuse(ctx, kind, name, fn, st)
        k = rng.random()
        if k < .2:
            accept(ctx, 'ageing', lambda: st.age(.05*u.day))
        elif k < .35:
            accept(ctx, 'coverage', lambda: cover())
    accept(ctx, 'coverage', lambda: cover())
    # an unknown distribution in the middle of a run
    old, st.spot_generator.distribution = st.spot_generator.distribution, 'elsewhere'
    refuse(ctx, 'distribution', 'spots born with an unknown distribution', lambda: st.birth_spots(1*u.day), st)
    refuse(ctx, 'distribution', 'mature spots with an unknown distribution', lambda: st.generate_mature_spots(.1), st)
    st.spot_generator.distribution = old
    # a facula without contrast
    f = gen.clone(spec['faculae'][0])
    c = float(np.round(rng.uniform(-200, 200), 2))
    f.update(fslope=0., wslope=0., fbase=c, wint=c, r=.8*spec['radius'], rmax=.8*spec['radius'], growing=False, lat=la, lon=lo)
    if rng.random() < .5:
        f['fmin'] = 2*f['r']
    flat = gen.mk_facula(f, gridmaker=st.gridmaker)
    refuse(ctx, 'contrast', 'effective area of a facula without contrast', lambda: flat.effective_area(float(rng.uniform(0, 89))*u.deg))
    refuse(ctx, 'contrast', 'fractional area of a facula without contrast', lambda: flat.fractional_effective_area(float(rng.uniform(0, 89))*u.deg))
    sp = st.spots.spots
    st.spots.spots = ()          # nothing hides the facula
    st.add_fac(flat)
    refuse(ctx, 'contrast', 'coverage of a star with a facula without contrast', lambda: st.calc_coverage(ob), st)
    st.spots.spots = sp
    ctx.sample(dict(grid=spec['grid'], requests=[req[int(i)][1] for i in order]))


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('grids', grids, 14, 150), ('functions', functions, 24, 250), ('history', in_history, 130, 2500)]
