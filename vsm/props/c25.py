"""Disabled components stay off."""
import numpy as np
from astropy import units as u
from vspec_vsm.faculae import FaculaGenerator
from vspec_vsm.flares import FlareGenerator
from vspec_vsm.granules import Granulation
from vspec_vsm.spots import SpotGenerator

from vsm import gen, ref

RULE = ('stars on both grid kinds with any subset of components disabled in any of the documented ways (no generator, the '
        'off() constructor, zero coverage, infinite minimum flare energy, no granulation, no contrast), driven through random histories of births, '
        'ageing, observations, flare and granulation queries and coverage requests over seconds to thousands of years; the '
        'collections, flares, granulation and disk are inspected after every step. Distinct: a different '
        'configuration and history; non-trivial: at least one birth or observation request was made.')
NEED = {'steps judged': 2500, 'births requested of disabled generators': 800, 'observations of flareless stars': 250,
        'granulation queries judged': 200, 'quiet disks judged': 200, 'enabled components seen producing': 30,
        'static spots aged': 300, 'static births requested': 40}
ASSUMPTIONS = []


def spot_generator(rng, kind, spec, seed, q):
    r = np.random.default_rng(seed)
    if kind == 'none':
        return None
    if kind == 'off':
        return SpotGenerator.off(grid_params=spec['grid'], rng=r)
    s = gen.spotgen_spec(rng, spec['radius'])
    s['grid'] = spec['grid']
    if kind == 'zero':
        s['cov'] = gen.pick(rng, [0, 0.])
    if kind == 'static':
        s['d'] = 0.
    return gen.mk_spotgen(s, r, q)


def facula_generator(rng, kind, spec, seed, q):
    r = np.random.default_rng(seed)
    if kind == 'none':
        return None
    if kind == 'off':
        return FaculaGenerator.off(grid_params=spec['grid'], rng=r)
    s = gen.facgen_spec(rng, spec['radius'])
    s['grid'] = spec['grid']
    if kind == 'zero':
        s['cov'] = gen.pick(rng, [0, 0.])
    return gen.mk_facgen(s, r, q)


def flare_generator(rng, kind, seed, q):
    r = np.random.default_rng(seed)
    if kind == 'none':
        return None
    if kind == 'off':
        return FlareGenerator.off(rng=r)
    s = gen.flaregen_spec(rng, rate=gen.loguni(rng, .5, 5))
    if kind == 'inf':
        s['emin'] = np.inf
    return gen.mk_flaregen(s, r, q)


def history(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    spec = gen.star(rng, nspots=0, nfac=0)
    spec['grid'] = gen.pick(rng, [60, 200, (6, 9), (9, 4)])
    ks = gen.pick(rng, ['none', 'off', 'zero', 'static', 'on'])
    kf = gen.pick(rng, ['none', 'off', 'zero', 'on'])
    kl = gen.pick(rng, ['none', 'off', 'inf', 'on'])
    kg = gen.pick(rng, ['none', 'off', 'contrast', 'on'])
    if rng.random() < .3:
        ks, kf, kl, kg = [gen.pick(rng, o) for o in (['none', 'off', 'zero'], ['none', 'off', 'zero'], ['none', 'off', 'inf'], ['none', 'off', 'contrast'])]
    seed = int(rng.integers(1 << 30))
    if kg == 'none':
        spec['gran'] = None
    elif kg == 'on' or kg == 'contrast':
        spec['gran'] = dict(mean=.4, amp=.01, period=20., dteff=0. if kg == 'contrast' else 100., seed=seed)
    gran = spec['gran'] if kg != 'off' else None
    spec['gran'] = gran
    st = gen.mk_star(spec, q, spot_generator=spot_generator(rng, ks, spec, seed, q), fac_generator=facula_generator(rng, kf, spec, seed+1, q),
                     flare_generator=flare_generator(rng, kl, seed+2, q), rng=np.random.default_rng(seed+3))
    if kg == 'off':
        st.granulation = Granulation.off(seed=seed % 1000)
    info = dict(spots=ks, faculae=kf, flares=kl, granulation=kg, grid=spec['grid'])
    observed, asked = False, 0
    for _ in range(int(rng.integers(8, 20))):
        op = gen.pick(rng, ['spots', 'faculae', 'age', 'observe', 'flares', 'granulation', 'coverage', 'spots', 'faculae', 'observe'])
        # components that are on would fill the star up over centuries
        long = gen.loguni(rng, 1e-5, 1e6)
        t = long
        if (op == 'spots' and ks == 'on') or (op == 'faculae' and kf == 'on') or (op == 'observe' and kl == 'on'):
            t = gen.loguni(rng, .01, 2)
            n = (st.spot_generator.get_n_spots_to_birth(t*u.day, st.radius) if op == 'spots' else
                 st.fac_generator.get_n_faculae_expected(t*u.day, st.radius) if op == 'faculae' else 0)
            if n > 6:
                t *= 6/n
        tq = q(t, 'time')
        if op == 'spots':
            st.birth_spots(tq)
            if ks != 'on':
                ctx.event('births requested of disabled generators')
            if ks == 'static':
                ctx.event('static births requested')
        elif op == 'faculae':
            st.birth_faculae(tq)
            if kf != 'on':
                ctx.event('births requested of disabled generators')
        elif op == 'age':
            st.age(tq)
        elif op == 'observe':
            st.get_flares_over_observation(tq)
            observed = True
            if kl != 'on':
                ctx.event('observations of flareless stars')
        elif op == 'flares' and observed:
            a = gen.loguni(rng, .01, 100)
            r = st.get_flare_int_over_timeperiod(q(a, 'time'), q(a+gen.loguni(rng, .01, 3), 'time'), gen.obs(gen.lat(rng), gen.lon(rng), q))
            if kl != 'on':
                ctx.ok(list(r) == [], f'{len(r)} flares on a star without flares', **info)
        elif op == 'granulation':
            tt = np.sort(rng.uniform(0, gen.loguni(rng, .1, 1e4), 9))
            c = np.asarray(st.get_granulation_coverage(q(tt, 'time')))
            if kg != 'on':
                ctx.ok(c.shape == tt.shape and np.all(c == 0), f'granulation coverage {c[:3]} with granulation off', **info)
                ctx.event('granulation queries judged')
        elif op == 'coverage':
            la, lo = gen.lat(rng), gen.lon(rng)
            o = gen.obs(la, lo, q)
            fr = float(st.get_granulation_coverage(q(np.array([float(rng.uniform(0, 100))]), 'time'))[0])
            total, covered, frac = st.calc_coverage(o, granulation_fraction=fr)
            if ks != 'on' and kf != 'on' and kg != 'on':
                # only the photosphere, up to the two decimals of the keys
                off = sum(v for key, v in total.items() if abs(float(key.split()[0])-spec['teff']) > .0051)
                ctx.ok(abs(off) < 1e-9, f'a quiet disk shows other temperatures: {total}', **info)
                ctx.close(sum(total.values()), 1., 'total coverage of a quiet disk', atol=1e-6, **info)
                ctx.close(st.average_teff(o).to_value(u.K), spec['teff'], 'mean temperature of a quiet disk', atol=.0051, rtol=1e-6, **info)
                m = np.asarray(st.map.to_value(u.K))
                ctx.ok(np.all(m == m.flat[0]), 'the surface of a quiet star is not uniform', **info)
                ctx.event('quiet disks judged')
        if op in ('spots', 'faculae', 'observe'):
            asked += 1
        # -- the state after every step
        if ks != 'on':
            ctx.ok(len(st.spots.spots) == 0, f'{len(st.spots.spots)} spots on a star whose spots are disabled ({ks}), after {op}', days=t, **info)
        elif len(st.spots.spots):
            ctx.event('enabled components seen producing')
        if kf != 'on':
            ctx.ok(len(st.faculae.faculae) == 0, f'{len(st.faculae.faculae)} faculae on a star whose faculae are disabled ({kf}), after {op}', days=t, **info)
        elif len(st.faculae.faculae):
            ctx.event('enabled components seen producing')
        if kl != 'on' and st.flares is not None:
            ctx.ok(len(st.flares.flares) == 0, f'{len(st.flares.flares)} flares on a star without flares ({kl}), after {op}', days=t, **info)
        elif st.flares is not None and len(st.flares.flares):
            ctx.event('enabled components seen producing')
        ctx.event('steps judged')
    if asked:
        ctx.key(ks, kf, kl, kg, seed)
    ctx.sample(info)


def static(ctx, rng):
    """static spots neither appear nor go away"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    spec = gen.star(rng, nspots=0, nfac=0)
    spec['grid'] = gen.pick(rng, [60, (6, 9)])
    spec['radius'] = gen.RS
    seed = int(rng.integers(1 << 30))
    default = bool(rng.random() < .4)
    if default:
        g, cov = None, float(gen.pick(rng, [1e-4, 5e-5]))
    else:
        s = gen.spotgen_spec(rng, spec['radius'])
        s.update(d=0., grid=spec['grid'], g=float(gen.pick(rng, [0., .52, 5.])))
        g, cov = gen.mk_spotgen(s, np.random.default_rng(seed), q), float(gen.pick(rng, [.01, .1]))
        cov = min(cov, 30*s['mean']*ref.MSH_KM2/(4*np.pi*spec['radius']**2))
    st = gen.mk_star(spec, q, spot_generator=g, rng=np.random.default_rng(seed))
    st.generate_mature_spots(cov)
    before = [gen.spot_state(x) for x in st.spots.spots]
    ctx.ok(len(before) > 0, 'no mature spots')
    ids = [id(x) for x in st.spots.spots]
    for _ in range(5):
        t = gen.loguni(rng, 1e-3, 1e5)
        st.age(q(t, 'time'))
        st.birth_spots(q(t, 'time'))
        ctx.event('static births requested')
        ctx.ok([id(x) for x in st.spots.spots] == ids, f'{len(st.spots.spots)} static spots instead of {len(ids)} after {t:.3g} days', default=default)
        for x, b in zip(st.spots.spots, before):
            n = gen.spot_state(x)
            lo, hi = sorted((b['area'], b['area_max']))
            ctx.ok(lo*(1-1e-9) <= n['area'] <= hi*(1+1e-9), f'a static spot of {b["area"]!r} MSH has {n["area"]!r} MSH after ageing', was=b, now=n)
            if n['g'] == 0:
                ctx.close(n['area'], b['area'], 'area of a spot that neither grows nor decays', rtol=1e-9)
            ctx.event('static spots aged')
    ctx.key('s', seed)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('history', history, 320, 8000), ('static', static, 40, 600)]
