"""Reported disk coverage is conserved."""
from vsm import gen, judges, mission, mon

RULE = ('random stars (both grid kinds, any limb darkening with non-negative intensity, 0-8 spots, 0-4 faculae, '
        'granulation models), viewpoints and planets, queried alone and inside simulation histories; every '
        'calc_coverage call is judged by the monitor. Distinct: a different (star, viewpoint, fraction, planet). '
        'Non-trivial: at least one spot or facula, a granulation fraction above 0 or a planet.')
NEED = {'coverage reports judged': 500, 'granulation splits judged': 200, 'occulted reports judged': 50, 'merged temperatures judged': 800, 'fine grids judged': 6}
ASSUMPTIONS = ['limb-darkening coefficients with non-negative intensity on the disk', 'rectangular grids of at '
               'least 4 latitudes', 'temperatures in kelvin']
TABLE = {'Star.calc_coverage': judges.coverage_conserved}


@mon.monitored(TABLE)
def single(ctx, rng, grid=None):
    spec = gen.star(rng)
    spec['grid'] = grid or spec['grid']
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    # temperatures that print alike, equal the photosphere or equal the granulation temperature
    k = rng.random()
    if k < 0.35 and spec['spots']:
        t = spec['teff'] - (spec['gran']['dteff'] if spec['gran'] else 0)
        for s in spec['spots']:
            s['tu'] = float(gen.pick(rng, [t, t+0.001, t-0.002, spec['teff']-0.003, 2500.001, 2500.0049]))
            s['tp'] = max(s['tu'], float(gen.pick(rng, [t+0.0011, t, s['tu']+0.001, spec['teff']+0.002])))
    if k > 0.95:       # everything covered
        for s in spec['spots']:
            s['area'] = 0.999*4*3.141592653589793*spec['radius']**2/gen.ref.MSH_KM2
            s['area_max'] = s['area']*1.1
    st = gen.mk_star(spec, q)
    for _ in range(3):
        la, lo = gen.view(rng, spec)
        p = gen.planet(rng, spec['radius']) if rng.random() < .6 else None
        g = float(gen.pick(rng, [0., 1., 0.5, 1e-9, float(rng.random()), float(rng.random())]))
        kw = gen.planet_kw(p, q) if p else {}
        if rng.random() < 0.1:
            st.calc_coverage(gen.obs(la, lo, q), g, **kw)
        elif g == 0 and rng.random() < .5:
            st.calc_coverage(gen.obs(la, lo, q), **kw)
        else:
            st.calc_coverage(gen.obs(la, lo, q), granulation_fraction=g, **kw)
        if spec['spots'] or spec['faculae'] or g > 0 or p:
            ctx.key(spec, la, lo, p, g)
    ctx.sample(dict(spec=spec, view=(la, lo), planet=p, g=g))


@mon.monitored(TABLE)
def alike(ctx, rng):
    """temperatures that print alike against a twin where they are equal: both are added up, in total and occulted"""
    spec = gen.star(rng, nspots=int(rng.integers(3, 16)), nfac=int(gen.pick(rng, [0, 0, 1, 2])), big=bool(rng.random() < .5))
    dteff = spec['gran']['dteff'] if spec['gran'] else 0
    spec['teff'] = round(spec['teff'], 2)
    groups = [spec['teff'], spec['teff']-dteff, 2500., 2611.37]
    near = lambda t: float(t+gen.pick(rng, [0., .001, -.0011, .003, -.0042]))
    for s in spec['spots']:
        s['ratio'] = float(rng.uniform(1.2, 4))
        if rng.random() < .75:
            a, b = near(gen.pick(rng, groups)), near(gen.pick(rng, groups))
            s['tu'], s['tp'] = min(a, b), max(a, b)
    two = gen.clone(spec)
    for s in two['spots']:
        s['tu'], s['tp'] = (next((g for g in groups if abs(g-s[k]) < .006), s[k]) for k in ('tu', 'tp'))
    st, tw = gen.mk_star(spec), gen.mk_star(two)
    for _ in range(3):
        la, lo = gen.view(rng, spec)
        p = dict(a=float(spec['radius']*rng.uniform(2, 30)), rp=float(spec['radius']*gen.pick(rng, [.2, .5, .9])), phase=180., inc=90.)
        p['phase'] += float(rng.uniform(-.7, .7))*57*spec['radius']/p['a']
        kw = dict(granulation_fraction=float(gen.pick(rng, [0., .3, 1.])), **gen.planet_kw(p))
        x, y = st.calc_coverage(gen.obs(la, lo), **kw), tw.calc_coverage(gen.obs(la, lo), **kw)
        for name, a, b in (('total', x[0], y[0]), ('occulted', x[1], y[1])):
            keys = {k for k in list(a)+list(b) if max(a.get(k, 0), b.get(k, 0)) > 1e-7}
            for k in keys:
                ctx.ok(abs(a.get(k, 0)-b.get(k, 0)) < 1e-7, f'{name} coverage of {k} is {a.get(k, 0)!r} with temperatures that print alike, '
                       f'{b.get(k, 0)!r} with equal ones', spec=spec, view=(la, lo), planet=p)
                ctx.event('merged temperatures judged')
        ctx.key('a', spec, la, lo, p)


def full(ctx, rng):
    """grids as fine as the default one"""
    single(ctx, rng, gen.full_grid(rng))
    ctx.event('fine grids judged')


@mon.monitored(TABLE)
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=10)
    ctx.key(spec, ops)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('single', single, 600, 9000), ('alike', alike, 60, 1200), ('history', history, 80, 1500), ('full', full, 6, 100)]
