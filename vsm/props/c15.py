"""Results do not depend on the units inputs are given in."""
import numpy as np
from astropy import units as u
from vspec_vsm.config import MSH
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.flares import FlareCollection
from vspec_vsm import helpers

from vsm import gen, judges, mission, pairs, ref

RULE = ('pairs of runs of one scenario, once in canonical units and once with every length, area, time, rate, angle and '
        'energy in a randomly drawn unit of its kind: maps, coverage, transit masks and spot fractions, histories of '
        'ageing, births and mature spots with equally seeded generators, flare series, curves, windows and '
        'distribution functions, granulation, projections and facula areas are compared. Distinct: a different '
        '(scenario, unit choice); non-trivial: the scenario has a feature.')
NEED = {'maps compared': 80, 'coverages compared': 150, 'histories compared': 60, 'features compared': 300,
        'generated features compared': 200, 'flares compared': 300, 'flare windows compared': 100,
        'granulation series compared': 15, 'helper results compared': 400}
ASSUMPTIONS = ['exact ties (element on an edge, radius equal to a minimum) may go either way after rounding',
               'temperatures are given in kelvin']


def close_states(ctx, a, b, what, tol=1e-9):
    ctx.ok(len(a) == len(b), f'{what}: {len(b)} instead of {len(a)}')
    for x, y in zip(a, b):
        for k in x:
            if isinstance(x[k], bool):
                ctx.ok(x[k] == y[k], f'{what}: {k} {y[k]!r} instead of {x[k]!r}', canonical=x, other=y)
            else:
                ctx.ok(abs(x[k]-y[k]) <= tol*max(abs(x[k]), abs(y[k]))+1e-9, f'{what}: {k} is {y[k]!r} instead of {x[k]!r}',
                       canonical=x, other=y)
        ctx.event('features compared')


def compare(ctx, s1, s2, q, rng, spec):
    """two stars, one built in canonical and one in other units"""
    ctx.ok(abs(judges.km(s1.radius)-judges.km(s2.radius)) < 1e-9*judges.km(s1.radius), 'radius differs')
    if pairs.spot_edge(s1):
        ctx.event('skipped: an element lies on an edge')
        return
    m1, m2 = s1.map.to_value(u.K), s2.map.to_value(u.K)
    ctx.ok(m1.shape == m2.shape and np.allclose(m1, m2, rtol=0, atol=1e-9), 'surface maps differ', spec=spec)
    ctx.event('maps compared')
    c1, c2 = s1.spots.get_coverage(s1.radius), s2.spots.get_coverage(s2.radius)
    ctx.ok(abs(c1-c2) < 1e-9, f'spot coverage {c2!r} instead of {c1!r}', spec=spec)
    for _ in range(2):
        la, lo = pairs.generic_view(rng) if spec['faculae'] else gen.view(rng, spec)
        p = gen.planet(rng, spec['radius'])
        if abs(np.cos(np.radians(p['phase']))) < 1e-6:
            p['phase'] += .01
        slack = pairs.facula_slack(s1, np.radians(la), np.radians(lo))
        a = s1.calc_coverage(gen.obs(la, lo), granulation_fraction=.2, **gen.planet_kw(p))
        b = s2.calc_coverage(gen.obs(la, lo, q), granulation_fraction=.2, **gen.planet_kw(p, q))
        pairs.coverage_same(ctx, a, b, slack, 'other units', ctol=2e-5, spec=spec, view=(la, lo), planet=p)
        ctx.event('coverages compared')
        for x, y in zip(s1.spots.spots, s2.spots.spots):
            f1, f2 = x.surface_fraction(gen.obs(la, lo), s1.radius), y.surface_fraction(gen.obs(la, lo, q), s2.radius)
            ctx.ok(abs(float(f1)-float(f2)) <= 2e-5*max(float(f1), 1e-3), f'surface fraction {f2!r} instead of {f1!r}', spec=spec)
            r1, r2 = judges.km(x.radius), judges.km(y.radius)
            ctx.ok(abs(r1-r2) <= 1e-9*r1, f'spot radius {r2!r} km instead of {r1!r}')
            ctx.ok(abs(judges.rad(x.angular_radius(s1.radius))-judges.rad(y.angular_radius(s2.radius))) < 1e-7, 'angular radius differs')
        for x, y in zip(s1.faculae.faculae, s2.faculae.faculae):
            ang = float(rng.uniform(0, 1.5))
            e1 = sorted((float(k.to_value(u.K)), float(v.to_value(u.km**2))) for k, v in x.effective_area(ang*u.rad).items())
            e2 = sorted((float(k.to_value(u.K)), float(v.to_value(u.km**2))) for k, v in y.effective_area(q(np.degrees(ang), 'angle')).items())
            ctx.ok(np.allclose(e1, e2, rtol=1e-7, atol=1e-7*sum(v for _, v in e1)), f'effective areas {e2} instead of {e1}', spec=spec)
            ctx.ok(abs(judges.rad(x.angular_radius(s1.radius))-judges.rad(y.angular_radius(s2.radius))) < 1e-9, 'facula angular radius differs')


def snapshots(ctx, rng):
    spec = pairs.generic(gen.star(rng), rng)
    q = gen.Units(rng)
    compare(ctx, gen.mk_star(spec), gen.mk_star(spec, q), q, rng, spec)
    if spec['spots'] or spec['faculae']:
        ctx.key(spec)
    ctx.sample(spec)


def halfway(st):
    """some facula contrast is about to round either way, or a feature is at a turning point"""
    for f in st.faculae.faculae:
        w, fl = gen.facula_contrasts(gen.facula_state(f))
        if min(abs(w-np.floor(w)-.5), abs(fl-np.floor(fl)-.5)) < 1e-6 or abs(w-fl) < 1e-6:
            return True
        if abs(judges.km(f.radius)/judges.km(f.floor_teff_min_rad)-1) < 1e-7 if judges.km(f.floor_teff_min_rad) else False:
            return True
    return False


def histories(ctx, rng):
    spec = pairs.generic(gen.star(rng, big=False), rng)
    q = gen.Units(rng)
    seed = int(rng.integers(1 << 31))
    sg, fg = gen.spotgen_spec(rng, spec['radius']), gen.facgen_spec(rng, spec['radius'])
    flg = gen.flaregen_spec(rng, rate=3.)

    def make(qq):
        r = np.random.default_rng(seed)
        return gen.mk_star(spec, qq, rng=r, spot_generator=gen.mk_spotgen(sg, r, qq), fac_generator=gen.mk_facgen(fg, r, qq),
                           flare_generator=gen.mk_flaregen(flg, r, qq))
    s1, s2 = make(gen.CANONICAL), make(q)
    for _ in range(7):
        op = gen.pick(rng, ['age', 'age', 'births', 'birthf', 'mature', 'flares'])
        n0 = len(s1.spots.spots)+len(s1.faculae.faculae)
        if op == 'age':
            t = float(rng.uniform(0, 1)*gen.pick(rng, [.01, .3, 2, 10]))
            s1.age(t*u.day)
            s2.age(q(t, 'time'))
        elif op == 'births' and n0 < 30:
            t = mission.birth_time(s1.spot_generator, 'spots', s1.radius, rng)
            e1 = float(s1.spot_generator.get_n_spots_to_birth(t*u.day, s1.radius))
            e2 = float(s2.spot_generator.get_n_spots_to_birth(q(t, 'time'), s2.radius))
            ctx.ok(abs(e1-e2) <= 1e-9*e1, f'expected births {e2!r} instead of {e1!r}')
            for name in ('mean_area', 'mean_lifetime'):
                x, y = getattr(s1.spot_generator, name), getattr(s2.spot_generator, name)
                ctx.ok(abs(float((x/y).to_value(u.dimensionless_unscaled))-1) < 1e-9, f'{name} differs')
            s1.birth_spots(t*u.day)
            s2.birth_spots(q(t, 'time'))
        elif op == 'birthf' and n0 < 30:
            t = mission.birth_time(s1.fac_generator, 'fac', s1.radius, rng)
            s1.birth_faculae(t*u.day)
            s2.birth_faculae(q(t, 'time'))
        elif op == 'mature' and n0 < 30:
            c = float(rng.uniform(0, .03))
            s1.generate_mature_spots(c)
            s2.generate_mature_spots(c)
        elif op == 'flares':
            t = float(rng.uniform(.1, 3))
            s1.get_flares_over_observation(t*u.day)
            s2.get_flares_over_observation(q(t, 'time'))
            flares_same(ctx, s1.flares.flares, s2.flares.flares)
        n1 = len(s1.spots.spots)+len(s1.faculae.faculae)
        ctx.event('generated features compared', max(0, n1-n0))
        close_states(ctx, [gen.spot_state(s) for s in s1.spots.spots], [gen.spot_state(s) for s in s2.spots.spots], f'spots after {op}')
        close_states(ctx, [gen.facula_state(s) for s in s1.faculae.faculae], [gen.facula_state(s) for s in s2.faculae.faculae],
                     f'faculae after {op}')
    if not halfway(s1):
        compare(ctx, s1, s2, q, rng, dict(spec, faculae=list(s1.faculae.faculae) and [1]))
    ctx.event('histories compared')
    ctx.key('h', spec)


def flare_tuple(f):
    return np.array([f.fwhm.to_value(u.day), f.energy.to_value(u.erg), f.lat.to_value(u.deg), f.lon.to_value(u.deg),
                     f.Teff.to_value(u.K), f.tpeak.to_value(u.day)], float)


def flares_same(ctx, a, b):
    ctx.ok(len(a) == len(b), f'{len(b)} flares instead of {len(a)}')
    for x, y in zip(a, b):
        ctx.close(flare_tuple(y), flare_tuple(x), 'flare in other units', rtol=1e-9)
        ctx.event('flares compared')


def flares(ctx, rng):
    q = gen.Units(rng)
    specs = [gen.flare_spec(rng) for _ in range(5)]
    a = FlareCollection([gen.mk_flare(s) for s in specs])
    b = FlareCollection([gen.mk_flare(s, q) for s in specs])
    flares_same(ctx, a.flares, b.flares)
    t = np.sort(rng.uniform(-1, 5, 40))
    for x, y in zip(a.flares, b.flares):
        c1 = x.areacurve(t*u.day).to_value(u.km**2)
        c2 = y.areacurve(q(t, 'time')).to_value(u.km**2)
        p1, p2 = x.calc_peak_area().to_value(u.km**2), y.calc_peak_area().to_value(u.km**2)
        ctx.close(p2, p1, 'peak area', rtol=1e-9)
        ctx.close(c2, c1, 'flare curve', rtol=1e-7, atol=1e-9*p1)
        ta1, ta2 = x.get_timearea(t*u.day).to_value('km2 hr'), y.get_timearea(q(t, 'time')).to_value('km2 hr')
        ctx.close(ta2, ta1, 'time-area', rtol=1e-7, atol=1e-9*p1)
    for _ in range(3):
        t0 = float(rng.uniform(0, 3))
        n = int(rng.integers(1, 200))
        t1 = t0+(n+float(rng.uniform(.1, .9)))*10/1440
        la, lo = gen.lat(rng), gen.lon(rng)
        mu = [float(ref.mu(np.radians(s['lat']), np.radians(s['lon']), np.radians(la), np.radians(lo))) for s in specs]
        if min(abs(m) for m in mu) < 1e-9:
            continue
        r1 = a.get_flare_integral_in_timeperiod(t0*u.day, t1*u.day, gen.obs(la, lo))
        r2 = b.get_flare_integral_in_timeperiod(q(t0, 'time'), q(t1, 'time'), gen.obs(la, lo, q))
        ctx.ok(len(r1) == len(r2), f'{len(r2)} flares in the window instead of {len(r1)}')
        for x, y in zip(r1, r2):
            ctx.ok(abs(x['Teff'].to_value(u.K)-y['Teff'].to_value(u.K)) < 1e-9, 'temperature differs')
            v1, v2 = x['timearea'].to_value('km2 hr'), y['timearea'].to_value('km2 hr')
            ctx.ok(abs(v1-v2) <= 1e-7*abs(v1)+1e-9*max(f.calc_peak_area().to_value(u.km**2) for f in a.flares),
                   f'time-area {v2!r} instead of {v1!r}')
        ctx.event('flare windows compared')
    g = gen.flaregen_spec(rng, rate=5.)
    seed = int(rng.integers(1 << 31))
    g1, g2 = gen.mk_flaregen(g, np.random.default_rng(seed)), gen.mk_flaregen(g, np.random.default_rng(seed), q)
    e = g['emin']*10**rng.uniform(-1, 3, 6)
    e = e[np.abs(e/g['emin']-1) > 1e-6]
    ctx.close(g2.pdf(q(e, 'energy')), g1.pdf(e*u.erg), 'pdf', rtol=1e-9, atol=0)
    ctx.close(g2.cdf(q(e, 'energy')), g1.cdf(e*u.erg), 'cdf', rtol=1e-9)
    ctx.close(g2.frequency_greater_than(q(e, 'energy')).to_value(1/u.day), g1.frequency_greater_than(e*u.erg).to_value(1/u.day),
              'frequency', rtol=1e-9, atol=0)
    x = rng.random(5)
    ctx.close(g2.quantile_func(x).to_value(u.erg), g1.quantile_func(x).to_value(u.erg), 'quantile', rtol=1e-9)
    ctx.close(g2.get_nexp_greater_than(q(e[0], 'energy'), q(2., 'time')), g1.get_nexp_greater_than(e[0]*u.erg, 2*u.day), 'expected number', rtol=1e-9)
    flares_same(ctx, g1.generate_flare_series(3*u.day), g2.generate_flare_series(q(3., 'time')))
    ctx.key('f', specs)


def granulation(ctx, rng):
    g = dict(mean=float(rng.uniform(.1, .9)), amp=.01, period=gen.loguni(rng, 2, 100), dteff=200., seed=int(rng.integers(1, 1 << 30)))
    n = int(rng.integers(3, 9))
    t = np.sort(rng.uniform(0, 10*g['period'], n))
    q = gen.Units(rng)
    a = np.asarray(gen.mk_gran(g).get_coverage(t*u.hr))
    b = np.asarray(gen.mk_gran(g, q).get_coverage(q(t, 'hours')))
    ctx.close(b, a, 'granulation in other units', rtol=1e-6, atol=1e-7)
    st = gen.mk_star(dict(teff=3000., radius=6e5, period=9., grid=60, u1=0., u2=0., spots=[], faculae=[], gran=g), q)
    ctx.close(np.asarray(st.get_granulation_coverage(q(t, 'hours'))), a, 'granulation of a star in other units', rtol=1e-6, atol=1e-7)
    ctx.event('granulation series compared', 2)
    ctx.key('g', g)


def helper(ctx, rng):
    q = gen.Units(rng)
    for _ in range(5):
        a, b = pairs.generic_view(rng)
        c, d = gen.lat(rng), gen.lon(rng)
        x = helpers.get_angle_between(a*u.deg, b*u.deg, c*u.deg, d*u.deg).to_value(u.rad)
        y = helpers.get_angle_between(q(a, 'angle'), q(b, 'angle'), q(c, 'angle'), q(d, 'angle')).to_value(u.rad)
        ctx.close(y, x, 'angle', rtol=0, atol=1e-7)
        ctx.event('helper results compared')
    la, lo = np.degrees(np.arcsin(rng.uniform(-1, 1, 20))), rng.uniform(0, 360, 20)
    x, y = helpers.proj_ortho(a*u.deg, b*u.deg, la*u.deg, lo*u.deg)
    x2, y2 = helpers.proj_ortho(q(a, 'angle'), q(b, 'angle'), q(la, 'angle'), q(lo, 'angle'))
    m = np.abs(ref.mu(np.radians(la), np.radians(lo), np.radians(a), np.radians(b))) > 1e-9
    ctx.ok(np.array_equal(np.isnan(x[m]), np.isnan(x2[m])), 'visibility differs')
    ok = m & np.isfinite(x)
    ctx.close(x2[ok], x[ok], 'x', rtol=0, atol=3e-3)
    ctx.close(y2[ok], y[ok], 'y', rtol=0, atol=3e-3)
    gm = CoordinateGrid.new(gen.grid(rng))
    ctx.close(gm.cos_angle_from_disk_center(q(a, 'angle'), q(b, 'angle')), gm.cos_angle_from_disk_center(a*u.deg, b*u.deg), 'cosine', atol=1e-11)
    v = (1*MSH).to_value(u.km**2)
    ctx.close(v, 1e-6*2*np.pi*ref.RSUN_KM**2, 'one micro-solar-hemisphere (km2)', rtol=1e-9)
    ctx.close((1*u.km**2).to_value(MSH), 1/v, 'km2 in msh', rtol=1e-12)
    ctx.event('helper results compared', 4)
    ctx.key('m', ctx.current[1])


WORKLOADS = [('snapshots', snapshots, 60, 1500), ('histories', histories, 80, 1500), ('flares', flares, 60, 1500),
             ('granulation', granulation, 12, 150), ('helpers', helper, 70, 2000)]
