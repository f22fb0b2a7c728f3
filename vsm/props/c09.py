"""Queries are pure and always reflect the current state."""
import numpy as np
from astropy import units as u
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.faculae import Facula, FaculaCollection
from vspec_vsm.flares import FlareCollection, StellarFlare
from vspec_vsm.granules import Granulation
from vspec_vsm.spots import SpotCollection, StarSpot
from vspec_vsm.star import Star

from vsm import gen, mission

RULE = ('random histories of ageing, births, additions, parameter changes (of the star and of single features) and replacement of the features by others of the same sizes on a star, interleaved with batches of '
        'queries. In each batch every query is asked, its answer copied, the returned arrays, dictionaries and lists '
        'overwritten, the batch asked again in another order, and both compared; the state (features, parameters, '
        'random generators, arguments) is compared before and after; finally a star built afresh from the current '
        'features is asked the same in the reverse order; the questions include pairs whose viewpoints or phases differ by a hair. Distinct: a different (star, history, batch); non-trivial: the star has features.')
NEED = {'answers repeated': 2000, 'answers overwritten': 2000, 'answers of a rebuilt star compared': 1500,
        'state snapshots compared': 200, 'plots drawn': 4}
ASSUMPTIONS = ['a feature\'s place is fixed when it is made; its other attributes may be set']


def canon(x):
    """deep copy of an answer in comparable form"""
    if isinstance(x, u.Quantity):
        return ('q', str(x.unit), np.array(x.value, copy=True))
    if isinstance(x, np.ndarray):
        return ('a', np.array(x, copy=True))
    if isinstance(x, dict):
        return ('d', [(canon(k) if not isinstance(k, str) else k, canon(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('l', [canon(v) for v in x])
    if isinstance(x, StellarFlare):
        return ('f', [canon(getattr(x, k)) for k in ('fwhm', 'energy', 'lat', 'lon', 'Teff', 'tpeak')])
    if isinstance(x, (float, int, bool, str, np.generic)) or x is None:
        return ('s', x)
    if hasattr(x, '__array__'):
        return ('a', np.array(x))
    return ('o', type(x).__name__)


def same(a, b, tol=0.0):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple) and len(a) and a[0] == 's' and not isinstance(a[1], (str, type(None))):
        x, y = float(a[1]), float(b[1])
        return x == y or (x != x and y != y) or abs(x-y) <= tol*max(1, abs(x))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc':
            eq = (a == b) | (np.isnan(a) & np.isnan(b))
            if tol:
                eq |= np.abs(a-b) <= tol*np.maximum(1, np.abs(a))
            return bool(np.all(eq))
        return bool(np.all(a == b))
    return a == b


def scribble(x, depth=0):
    """overwrite everything mutable that was returned"""
    n = 0
    if isinstance(x, np.ndarray):
        if x.ndim and x.flags.writeable and x.dtype.kind in 'fiub':
            try:
                if isinstance(x, u.Quantity):
                    x.value[...] = 77
                else:
                    x[...] = 77
                n += 1
            except (ValueError, TypeError):
                pass
    elif isinstance(x, dict):
        for v in x.values():
            n += scribble(v, depth+1)
        x.clear()
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scribble(v, depth+1)
    elif isinstance(x, list):
        for v in x:
            n += scribble(v, depth+1)
        x.clear()
        n += 1
    return n


def rebuild(st):
    """a new star with the same features and parameters"""
    gm = CoordinateGrid.new(st.grid_params)
    spots = [StarSpot(s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra,
                      area_over_umbra_area=s.total_area_over_umbra_area, is_growing=s.is_growing,
                      growth_rate=s.growth_rate, decay_rate=s.decay_rate, gridmaker=gm) for s in st.spots.spots]
    facs = [Facula(f.lat, f.lon, f.r_max, f.radius, f.depth, f.lifetime, f.floor_teff_slope, f.floor_teff_min_rad,
                   f.floor_teff_base_dteff, f.wall_teff_slope, f.wall_teff_intercept, growing=f.is_growing,
                   gridmaker=gm) for f in st.faculae.faculae]
    g = st.granulation
    gran = Granulation(g.params['mean'], g.params['scale'], g.params['period']*u.hr, g.dteff, seed=g.seed)
    new = Star(st.teff, st.radius, st.period, SpotCollection(*spots, gridmaker=gm), FaculaCollection(*facs, gridmaker=gm),
               grid_params=st.grid_params, granulation=gran, u1=st.u1, u2=st.u2)
    if st.flares is not None:
        new.flares = FlareCollection([StellarFlare(f.fwhm, f.energy, f.lat, f.lon, f.Teff, f.tpeak)
                                      for f in st.flares.flares])
    return new


def snapshot(st):
    rngs = [st.rng, st.spot_generator.rng, st.fac_generator.rng, st.flare_generator.rng]
    return (gen.star_state(st), [repr(r.bit_generator.state) for r in rngs], repr(np.random.get_state()[1].tolist()[:8]),
            [id(s) for s in st.spots.spots], [id(f) for f in st.faculae.faculae],
            None if st.flares is None else [id(f) for f in st.flares.flares],
            canon(st.flares.peaks) if st.flares is not None else None,
            {k: str(v) for k, v in vars(st.spot_generator).items() if k not in ('rng', 'gridmaker')},
            {k: str(v) for k, v in vars(st.fac_generator).items() if k not in ('rng', 'gridmaker')},
            {k: str(v) for k, v in vars(st.flare_generator).items() if k != 'rng'})


def make_queries(ctx, rng, st, spec):
    """name -> function(star) -> answer; arguments are fixed here so that they can be asked again"""
    out = {}

    def add(name, fn, *arrays):
        saved = [canon(a) for a in arrays]

        def ask(star):
            ans = fn(star)
            for a, s in zip(arrays, saved):
                ctx.ok(same(canon(a), s), f'{name} changed an argument it was given')
            return ans
        out[f'{len(out)}:{name}'] = ask
    for _ in range(2):
        la, lo = gen.view(rng, spec)
        p = gen.planet(rng, spec['radius'])
        g = float(rng.random())
        o = gen.obs(la, lo)
        add('coverage', lambda s, o=o, p=p, g=g: s.calc_coverage(o, granulation_fraction=g, **gen.planet_kw(p)), o)
        add('transit', lambda s, o=o, p=p: s.get_transit_mask(o['lat'], o['lon'], **gen.mask_kw(p)), o)
        add('faculae', lambda s, o=o: s.add_faculae_to_map(o['lat'], o['lon']), o)
        add('average', lambda s, o=o: s.average_teff(o), o)
        mu = np.linspace(-1, 1, 11)
        add('mu', lambda s, o=o: s.get_mu(o['lat'], o['lon']), o)
        add('ld', lambda s, mu=mu: s.ld_mask(mu), mu)
        add('ldp', lambda s, mu=mu: s.ld_mask_for_plotting(mu), mu)
        add('proj', lambda s, mu=mu: s.area_projection_coefficient(mu), mu)
    # the same questions from a hair's breadth away: nothing may be remembered by a rounded argument
    la2, lo2 = float(np.clip(la+float(gen.pick(rng, [0, .02, -.004])), -90, 90)), lo+float(gen.pick(rng, [.03, -.01, 1e-3]))
    o2, p2 = gen.obs(la2, lo2), dict(p, phase=p['phase']+float(gen.pick(rng, [.02, -.003])))
    add('mu nearby', lambda s: s.get_mu(o2['lat'], o2['lon']), o2)
    add('coverage nearby', lambda s: s.calc_coverage(o2, granulation_fraction=g, **gen.planet_kw(p2)), o2)
    add('transit nearby', lambda s: s.get_transit_mask(o2['lat'], o2['lon'], **gen.mask_kw(p2)), o2)
    add('faculae nearby', lambda s: s.add_faculae_to_map(o2['lat'], o2['lon']), o2)
    add('map', lambda s: s.map)
    add('jacobian', lambda s: s.get_jacobian())
    add('grid', lambda s: s.gridmaker.grid())
    add('zeros', lambda s: s.gridmaker.zeros())
    add('area', lambda s: s.gridmaker.area)
    add('spot coverage', lambda s: s.spots.get_coverage(s.radius))
    add('spot map', lambda s: s.spots.map_pixels(s.radius, s.teff))
    add('index map', lambda s: s.faculae.map_pixels(s.map, s.radius, s.teff))
    ns, nf = len(st.spots.spots), len(st.faculae.faculae)
    if ns:
        i = int(rng.integers(ns))
        o = gen.obs(*gen.view(rng, spec))
        add('surface fraction', lambda s: s.spots.spots[i].surface_fraction(o, s.radius), o)
        add('one spot', lambda s: s.spots.spots[i].map_pixels(s.radius))
        add('spot radius', lambda s: (s.spots.spots[i].radius, s.spots.spots[i].angular_radius(s.radius),
                                      str(s.spots.spots[i])))
    if nf:
        j = int(rng.integers(nf))
        a = float(rng.uniform(0, 1.5))*u.rad
        add('one facula', lambda s: s.faculae.faculae[j].map_pixels(s.radius))
        add('facula area', lambda s: (s.faculae.faculae[j].effective_area(a), s.faculae.faculae[j].fractional_effective_area(a)))
    if st.flares is not None:
        t0, dt = float(rng.uniform(0, 3)), float(gen.pick(rng, [0.01, .3, 2]))
        o = gen.obs(*gen.view(rng, spec))
        add('flare integral', lambda s: s.get_flare_int_over_timeperiod(t0*u.day, (t0+dt)*u.day, o), o)
        add('flare mask', lambda s: s.flares.mask(t0*u.day, (t0+dt)*u.day))
        add('flare list', lambda s: s.flares.get_visible_flares_in_timeperiod(t0*u.day, (t0+dt)*u.day, o), o)
        if st.flares.flares:
            k = int(rng.integers(len(st.flares.flares)))
            t = np.linspace(0, 4, 31)*u.day
            add('flare curve', lambda s: s.flares.flares[k].areacurve(t), t)
            add('flare timearea', lambda s: s.flares.flares[k].get_timearea(t), t)
    if rng.random() < .25:
        t = np.linspace(0, float(rng.uniform(1, 50)), int(gen.pick(rng, [6, 6, 25, 60])))*u.hr
        add('granulation', lambda s: s.get_granulation_coverage(t), t)
        tb = t.copy()
        tb[2:4] *= 1.01
        add('granulation at other times', lambda s: s.get_granulation_coverage(tb), tb)
    if rng.random() < .2 and np.size(st.map) < 400:
        data = rng.random(st.map.shape)
        shape = (6, 8) if isinstance(st.grid_params, int) else st.grid_params
        add('display', lambda s: s.gridmaker.display_grid(*shape, data), data)
    return out


def plot_once(ctx, st, rng, spec):
    import matplotlib.pyplot as plt
    la, lo = gen.view(rng, spec)
    la = float(np.clip(la, -80, 80))
    nlat, nlon = (8, 12) if isinstance(st.grid_params, int) else st.grid_params
    p = gen.planet(rng, spec['radius'])
    st.plot_surface(la*u.deg, lo*u.deg, nlat=nlat, nlon=nlon, **gen.mask_kw(p))
    plt.close('all')
    ctx.event('plots drawn')


def batch(ctx, rng, st, spec, plot=False):
    before = snapshot(st)
    qs = make_queries(ctx, rng, st, spec)
    names = list(qs)
    first = {}
    order = list(rng.permutation(names))
    for n in order:
        first[n] = canon(qs[n](st))
    if plot:
        plot_once(ctx, st, rng, spec)
    for n in rng.permutation(names):
        ans = qs[n](st)
        ctx.ok(same(canon(ans), first[n]), f'{n}: the same question got another answer', spec=spec)
        ctx.event('answers repeated')
        if scribble(ans):
            ctx.event('answers overwritten')
    for n in rng.permutation(names):
        ctx.ok(same(canon(qs[n](st)), first[n]), f'{n}: another answer after the returned objects were overwritten',
               spec=spec)
    after = snapshot(st)
    for i, (x, y) in enumerate(zip(before, after)):
        ctx.ok(same(x, y), f'queries changed the state of the star (part {i})', before=x, after=y)
    ctx.event('state snapshots compared')
    new = rebuild(st)
    for n in order[::-1]:
        got = canon(qs[n](new))
        ctx.ok(same(first[n], got, 1e-9), f'{n}: a star rebuilt from the current state answers differently', spec=spec,
               state=gen.star_state(st))
        ctx.event('answers of a rebuilt star compared')


def history(ctx, rng):
    q = gen.Units(rng) if rng.random() < .2 else gen.CANONICAL
    st, spec = mission.make(rng, q)
    ops = []
    if rng.random() < .6:
        st.get_flares_over_observation(float(gen.pick(rng, [2., 2., 8.]))*u.day)
        if st.flares is not None and len(st.flares.flares) > 40:
            st.flares = FlareCollection(st.flares.flares[:40])
    nplot = rng.random() < 0.12
    for k in range(3):
        batch(ctx, rng, st, spec, plot=nplot and k == 1 or k == 2 and len(st.faculae.faculae) > 2 and rng.random() < .2)
        for _ in range(2):
            op = gen.pick(rng, ['age', 'age', 'births', 'birthf', 'add', 'teff', 'radius', 'ld', 'flares', 'gran', 'swap', 'tune'])
            ops.append(op)
            if op == 'age':
                st.age(q(mission.step_time(rng, spec), 'time'))
            elif op == 'births':
                st.birth_spots(q(mission.birth_time(st.spot_generator, 'spots', st.radius, rng), 'time'))
            elif op == 'birthf':
                st.birth_faculae(q(mission.birth_time(st.fac_generator, 'fac', st.radius, rng), 'time'))
            elif op == 'add':
                st.add_spot(gen.mk_spot(gen.spot(rng, spec['radius'], big=False), q, grid_params=gen.grid(rng)))
            elif op == 'swap':
                # as many spots, of the same areas, elsewhere or of other temperatures; as many faculae elsewhere
                move, heat = float(gen.pick(rng, [0., 0., 1., 90.])), float(gen.pick(rng, [0., 100.]))
                new = [gen.mk_spot(dict(gen.spot_state(s), lon=gen.spot_state(s)['lon']+move,
                                        tu=gen.spot_state(s)['tu']+heat, tp=gen.spot_state(s)['tp']+heat),
                                   gridmaker=st.gridmaker) for s in st.spots.spots]
                st.spots = SpotCollection(*new, gridmaker=st.gridmaker)
                new = [gen.mk_facula(dict(gen.facula_state(f), lon=gen.facula_state(f)['lon']+move),
                                     gridmaker=st.gridmaker) for f in st.faculae.faculae]
                st.faculae = FaculaCollection(*new, gridmaker=st.gridmaker)
            elif op == 'tune':
                # a feature's own parameters are public and may be set; its place is fixed at construction
                for s in st.spots.spots:
                    k = gen.pick(rng, ['tu', 'tp', 'ratio', 'area'])
                    if k == 'tu':
                        s.teff_umbra = s.teff_umbra-float(rng.uniform(1, 50))*u.K
                    elif k == 'tp':
                        s.teff_penumbra = s.teff_penumbra+float(rng.uniform(1, 50))*u.K
                    elif k == 'ratio':
                        s.total_area_over_umbra_area = float(rng.uniform(1, 9))
                    else:
                        s.area_current = s.area_current*float(rng.uniform(.3, 1))
                for f in st.faculae.faculae:
                    k = gen.pick(rng, ['r', 'depth', 'wall', 'floor'])
                    if k == 'r':
                        f.radius = f.radius*float(rng.uniform(.5, 1))
                    elif k == 'depth':
                        f.depth = f.depth*float(rng.uniform(.3, 3))
                    elif k == 'wall':
                        f.wall_teff_intercept = f.wall_teff_intercept+float(rng.uniform(1, 50))*u.K
                    else:
                        f.floor_teff_base_dteff = f.floor_teff_base_dteff-float(rng.uniform(1, 50))*u.K
            elif op == 'teff':
                st.teff = q(float(rng.uniform(2400, 6000)), 'temp')
            elif op == 'radius':
                st.radius = q(spec['radius']*float(rng.uniform(1, 1.5)), 'len')
            elif op == 'ld':
                st.u1, st.u2 = gen.limbdark(rng)
            elif op == 'flares':
                st.get_flares_over_observation(float(rng.uniform(0, .5))*u.day)
            elif op == 'gran':
                st.granulation = gen.mk_gran(dict(mean=.2, amp=.01, period=5., dteff=float(rng.uniform(50, 400)), seed=3))
    batch(ctx, rng, st, spec)
    if spec['spots'] or spec['faculae']:
        ctx.key(spec, ops)
    ctx.sample(dict(spec=spec, ops=ops))


WORKLOADS = [('history', history, 72, 1500)]
