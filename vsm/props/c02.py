"""Coverage is the limb-darkened, foreshortened share of the visible surface."""
import numpy as np
from astropy import units as u

from vsm import gen, judges, mission, mon

RULE = ('random stars with spots and faculae seen from random viewpoints (poles, wrapped longitudes), with planets '
        'and granulation; every reported fraction is compared with an independent projection of the surface map, '
        'and every mu array, limb-darkening mask and average temperature with its closed form. Distinct: a '
        'different (star, viewpoint, planet); non-trivial: at least one spot or facula, or a mask sample.')
NEED = {'coverage compared with the projected map': 400, 'coverage of several temperatures compared': 200,
        'limb-darkening masks judged': 400, 'mu arrays judged': 400, 'average temperatures judged': 50, 'fine grids judged': 6}
ASSUMPTIONS = ['limb-darkening coefficients with non-negative intensity on the disk',
               'element weights: cos(lat) normalised on rectangular grids, equal on spirals']


def keep_mu(ctx, star, args):
    return np.array(args['mu'], float)


TABLE = {'Star.calc_coverage': judges.coverage_projected,
         'Star.ld_mask': (judges.ld_mask(1), keep_mu),
         'Star.ld_mask_for_plotting': (judges.ld_mask(0), keep_mu),
         'Star.get_mu': judges.mu_values,
         'Star.average_teff': judges.avg_teff}


def projection(ctx, star, args, out, before):
    ctx.event('projection coefficients judged')
    ctx.close(out, np.clip(before, 0, None), 'area projection', rtol=1e-12, atol=1e-12)


TABLE['Star.area_projection_coefficient'] = (projection, keep_mu)


@mon.monitored(TABLE)
def single(ctx, rng, grid=None):
    spec = gen.star(rng, nspots=int(rng.integers(1, 7)), big_grid=bool(rng.random() < .15))
    spec['grid'] = grid or spec['grid']
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    if rng.random() < .2:      # temperatures that print alike
        for s in spec['spots']:
            s['tu'] = float(gen.pick(rng, [2500.001, 2500.0049, 2499.9981, spec['teff']-.003]))
            s['tp'] = max(s['tu'], float(gen.pick(rng, [s['tu']+.0012, spec['teff']+.002, spec['teff']])))
    st = gen.mk_star(spec, q)
    for _ in range(3):
        la, lo = gen.view(rng, spec)
        p = gen.planet(rng, spec['radius']) if rng.random() < .5 else None
        g = float(gen.pick(rng, [0., 1., 0.3]))
        st.calc_coverage(gen.obs(la, lo, q), granulation_fraction=g, **(gen.planet_kw(p, q) if p else {}))
        ctx.key(spec, la, lo, p, g)
    la, lo = gen.view(rng, spec)
    st.average_teff(gen.obs(la, lo, q))
    ctx.sample(dict(spec=spec, view=(la, lo)))


def full(ctx, rng):
    """grids as fine as the default one"""
    single(ctx, rng, gen.full_grid(rng))
    ctx.event('fine grids judged')


@mon.monitored(TABLE)
def masks(ctx, rng):
    spec = gen.star(rng, nspots=0, nfac=0)
    spec['u1'], spec['u2'] = float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2))
    st = gen.mk_star(spec)
    for _ in range(5):
        la, lo = gen.view(rng)
        mu = st.get_mu(gen.CANONICAL(la, 'angle'), gen.CANONICAL(lo, 'angle'))
        st.ld_mask(mu.copy())
        st.ld_mask_for_plotting(mu.copy())
        st.area_projection_coefficient(mu.copy())
        x = rng.uniform(-1, 1, size=int(rng.integers(1, 50)))
        st.ld_mask(x.copy())
        st.ld_mask_for_plotting(x.copy())
        ctx.key(spec, la, lo)
        # several temperatures, one mask for another star
        st.u1, st.u2 = float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))


@mon.monitored({'Star.calc_coverage': judges.coverage_projected, 'Star.average_teff': judges.avg_teff})
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=10)
    ctx.key(spec, ops)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('single', single, 320, 6000), ('masks', masks, 150, 2000), ('history', history, 70, 1200), ('full', full, 6, 100)]
