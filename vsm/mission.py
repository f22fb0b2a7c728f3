"""Random simulation histories on one star, the way an observation run drives it."""
import numpy as np

from . import gen


def make(rng, q=gen.CANONICAL, spec=None, generators=True, **kw):
    """A star with features and generators, its specification and its random generator."""
    spec = spec or gen.star(rng, big=False, **kw)
    r = np.random.default_rng(int(rng.integers(1 << 31)))
    extra = {}
    if generators:
        sg = gen.spotgen_spec(rng, spec['radius'])
        fg = gen.facgen_spec(rng, spec['radius'])
        extra = dict(spot_generator=gen.mk_spotgen(sg, r, q), fac_generator=gen.mk_facgen(fg, r, q),
                     flare_generator=gen.mk_flaregen(gen.flaregen_spec(rng), r, q))
        spec = dict(spec, spotgen=sg, facgen=fg)
    feature_grid = gen.grid(rng) if rng.random() < 0.4 else None
    st = gen.mk_star(spec, q, rng=r, feature_grid=feature_grid, via_add=bool(rng.random() < 0.3), **extra)
    return st, spec


def step_time(rng, spec):
    """a time step in days: tiny, ordinary, or longer than the features live"""
    return float(gen.pick(rng, [0., 1e-6, 0.01, 0.1, 0.5, 1., 1., 3., 10., 40., 400.]))


def birth_time(gen_obj, which, radius, rng, nmax=4.0):
    """days over which about U(0,nmax) features are expected"""
    one = (gen_obj.get_n_spots_to_birth if which == 'spots' else gen_obj.get_n_faculae_expected)(
        gen.CANONICAL(1.0, 'time'), radius)
    if not one > 0:
        return float(rng.uniform(0, 30))
    return float(rng.uniform(0, nmax)/one)


def query(rng, st, spec, q=gen.CANONICAL, g=None, planet=None):
    """one coverage query"""
    la, lo = gen.view(rng, spec)
    p = planet if planet is not None else (gen.planet(rng, spec['radius']) if rng.random() < .5 else None)
    kw = gen.planet_kw(p, q) if p else {}
    if g is None:
        g = float(gen.pick(rng, [0., 0., 1., 0.2, float(rng.random())]))
    return st.calc_coverage(gen.obs(la, lo, q), granulation_fraction=g, **kw)


def run(ctx, rng, steps=8, queries=True, max_features=40):
    q = gen.Units(rng) if rng.random() < 0.3 else gen.CANONICAL
    st, spec = make(rng, q)
    ops = []
    for _ in range(steps):
        op = gen.pick(rng, ['age', 'age', 'births', 'birthf', 'adds', 'addf', 'query', 'query', 'mature',
                            'param', 'avg'])
        ops.append(op)
        if len(st.spots.spots)+len(st.faculae.faculae) > max_features and op in ('births', 'birthf', 'mature'):
            op = 'age'
        if op == 'age':
            st.age(q(step_time(rng, spec), 'time'))
        elif op == 'births':
            st.birth_spots(q(birth_time(st.spot_generator, 'spots', st.radius, rng), 'time'))
        elif op == 'birthf':
            st.birth_faculae(q(birth_time(st.fac_generator, 'fac', st.radius, rng), 'time'))
        elif op == 'adds':
            n = int(rng.integers(0, 3))
            new = [gen.mk_spot(gen.spot(rng, spec['radius'], spec['teff'], big=False), q,
                               grid_params=gen.grid(rng)) for _ in range(n)]
            st.add_spot(new[0] if n == 1 and rng.random() < .5 else new)
        elif op == 'addf':
            f = gen.star(rng, 0, 1, big=False)
            fs = f['faculae'][0]
            k = spec['radius']/f['radius']
            for key in ('r', 'rmax', 'depth', 'fmin'):
                fs[key] *= k
            for key in ('fslope', 'wslope'):
                fs[key] /= k
            st.add_fac(gen.mk_facula(fs, q, grid_params=gen.grid(rng)))
        elif op == 'mature':
            st.generate_mature_spots(float(rng.uniform(0, 0.02)))
        elif op == 'param':
            st.u1, st.u2 = gen.limbdark(rng)
            if rng.random() < 0.5:
                st.teff = q(float(rng.uniform(2400, 6000)), 'temp')
        elif op == 'avg' and queries:
            st.average_teff(gen.obs(*gen.view(rng, spec), q))
        elif op == 'query' and queries:
            query(rng, st, spec, q)
    if queries:
        query(rng, st, spec, q)
    st.age(q(step_time(rng, spec), 'time'))
    ctx.event('mission operations', len(ops)+2)
    return st, spec, ops
