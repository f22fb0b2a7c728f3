"""Faculae show a hot wall toward the limb and a cool floor toward the center."""
import numpy as np
from astropy import units as u

from vspec_vsm import helpers
from vsm import gen, judges, mission, mon, ref

RULE = ('random facula populations (overlapping each other and spots, at disk center, at the limb, behind the star, '
        'below the minimum radius, temperatures beyond the limits) from random viewpoints; every element of every '
        'map is compared with the wall/floor rule. Elements within 1e-6 rad of a facula edge are not judged. '
        'Distinct: a different (population, star, viewpoint); non-trivial: some element lies in a facula.')
NEED = {'facula maps judged': 500, 'facula elements judged': 5000, 'wall shares judged': 200,
        'wall/floor orders judged': 100, 'facula masks judged': 400, 'facula index maps judged': 100,
        'roundings judged': 500, 'crowds judged': 8, 'edges next to an element judged': 150, 'fine grids judged': 6}
ASSUMPTIONS = ['wall and floor contrasts that are exactly equal are refused, as documented', 'the split is judged for faculae on the near side']
TABLE = {'Star.add_faculae_to_map': judges.facula_map, 'Facula.map_pixels': judges.facula_mask,
         'FaculaCollection.map_pixels': judges.facula_index}


@mon.monitored(TABLE)
def population(ctx, rng, grid=None):
    n = int(gen.pick(rng, [1, 1, 2, 3, 5]))
    spec = gen.star(rng, nspots=int(gen.pick(rng, [0, 0, 1, 3])), nfac=n, big_grid=bool(rng.random() < .4))
    spec['grid'] = grid or spec['grid']
    k = rng.random()
    if k < 0.3 and n > 1:
        for f in spec['faculae'][1:]:
            f['lat'], f['lon'] = spec['faculae'][0]['lat'], spec['faculae'][0]['lon']+float(rng.uniform(-20, 20))
    if rng.random() < 0.5:
        spec['teff'] = float(gen.pick(rng, [3000., 3300.25, 2800., 3700., 2400.]))
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    st = gen.mk_star(spec, q, via_add=bool(rng.random() < .5))
    for _ in range(3):
        la, lo = gen.view(rng, spec)
        st.add_faculae_to_map(q(la, 'angle'), q(lo, 'angle'))
        ctx.key(spec, la, lo)
    st.faculae.map_pixels(st.map, st.radius, st.teff)
    ctx.sample(dict(spec=spec, view=(la, lo)))


def full(ctx, rng):
    """grids as fine as the default one"""
    population(ctx, rng, gen.full_grid(rng))
    ctx.event('fine grids judged')


@mon.monitored(TABLE)
def limb_sweep(ctx, rng):
    """one well-resolved facula from disk center to the limb"""
    spec = gen.star(rng, nspots=0, nfac=1, big_grid=True)
    f = spec['faculae'][0]
    f['r'] = float(rng.uniform(0.15, 0.6))*spec['radius']
    f['rmax'] = f['r']*1.2
    f['depth'] = f['r']*gen.loguni(rng, 0.05, 2)
    f['fmin'] = float(gen.pick(rng, [0., f['r']*.5, f['r']*1.1]))
    f['fslope'] = f['wslope'] = 0.
    spec['teff'] = 3300.
    st = gen.mk_star(spec)
    for d in np.concatenate([[0.], rng.uniform(0, 90, 3), [89.9, 100.]]):
        st.add_faculae_to_map(gen.CANONICAL(f['lat'], 'angle'), gen.CANONICAL(f['lon']+d, 'angle'))
        ctx.key(spec, float(d))


@mon.monitored(TABLE)
def crowd(ctx, rng):
    """many small overlapping faculae"""
    n = int(gen.loguni(rng, 12, 350))
    spec = gen.star(rng, nspots=int(gen.pick(rng, [0, 2])), nfac=n, big=False)
    st = gen.mk_star(spec, via_add=bool(rng.random() < .5))
    la, lo = gen.view(rng, spec)
    st.add_faculae_to_map(gen.CANONICAL(la, 'angle'), gen.CANONICAL(lo, 'angle'))
    st.faculae.map_pixels(st.map, st.radius, st.teff)
    ctx.event('crowds judged')
    ctx.key('crowd', spec, la, lo)


@mon.monitored(TABLE)
def rim(ctx, rng):
    """a facula whose edge runs just inside or just outside a chosen element"""
    spec = gen.star(rng, nspots=0, nfac=1, big_grid=bool(rng.random() < .5))
    la, lo = ref.spiral(spec['grid']) if isinstance(spec['grid'], int) else ref.rect(*spec['grid'])
    la, lo = la.ravel(), lo.ravel()
    f = spec['faculae'][0]
    k = rng.random()
    if k < .4:
        f['lat'] = float(gen.pick(rng, [-1, 1]))*(90-gen.loguni(rng, 1e-3, 3))
    for _ in range(5):
        d = ref.sep(la, lo, np.radians(f['lat']), np.radians(f['lon']))
        i = int(rng.integers(la.size)) if rng.random() < .5 else int(np.argsort(d)[int(rng.integers(min(6, la.size)))])
        eps = gen.loguni(rng, 1e-6, 1e-2)*float(gen.pick(rng, [-1, 1]))
        a = float(d[i]*(1+eps))
        if not 1e-4 < a < 1.4 or abs(a-d[i]) < 4e-6:
            f['lon'] = gen.lon(rng)
            continue
        f.update(gen.facula(rng, spec['radius']), lat=f['lat'], lon=f['lon'])
        f['r'] = float(a*spec['radius'])
        f['rmax'] = f['r']*1.5
        f['depth'], f['fslope'], f['wslope'], f['wint'] = f['r'], 0., 0., 80.
        st = gen.mk_star(spec)
        st.faculae.faculae[0].map_pixels(st.radius)
        v = gen.view(rng, spec)
        st.add_faculae_to_map(gen.CANONICAL(v[0], 'angle'), gen.CANONICAL(v[1], 'angle'))
        ctx.event('edges next to an element judged')
        ctx.key('rim', spec)
        f['lat'], f['lon'] = (f['lat'] if k < .4 else gen.lat(rng)), gen.lon(rng)


@mon.monitored(TABLE)
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=8)
    ctx.key(spec, ops)


def roundings(ctx, rng):
    for _ in range(20):
        x = float(rng.uniform(-500, 5000)) if rng.random() < .7 else float(rng.integers(-500, 5000))+float(
            gen.pick(rng, [0., 0.25, 0.499, 0.501, 0.75]))
        r = helpers.round_teff(x*u.K)
        ctx.ok(float(r.to_value(u.K)) in judges.rounded(x), f'{x} K rounds to {r}')
        c = helpers.clip_teff(x*u.K)
        ctx.close(c.to_value(u.K), judges.clip_teff(x), 'limited temperature', rtol=1e-12)
        ctx.event('roundings judged', 2)
        ctx.key(x)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('population', population, 320, 6000), ('limb_sweep', limb_sweep, 60, 1000),
             ('history', history, 60, 1000), ('roundings', roundings, 30, 200),
             ('crowd', crowd, 16, 300), ('rim', rim, 80, 2000), ('full', full, 6, 100)]
