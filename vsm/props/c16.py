"""Runs are reproducible and all randomness comes from the caller's generators."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from astropy import units as u
from vspec_vsm.faculae import FaculaCollection
from vspec_vsm.spots import SpotCollection
from vspec_vsm.star import Star

from vsm import core, gen, mission
from vsm.props import c21

RULE = ('simulations (births, mature spots, ageing, flares, granulation, coverage) run step by step from equally seeded '
        'generators: alone, with the global generators reseeded and consumed between steps, interleaved with another '
        'simulation, and in another process with another hash seed; after every step the full state is compared '
        'exactly, and the state of the global numpy and Python generators before and after. Other seeds must give other '
        'populations. Distinct: a different (scenario, seed); non-trivial: the simulation drew random numbers.')
NEED = {'steps compared': 600, 'global states compared': 600, 'runs in another process compared': 3,
        'other seeds compared': 60, 'default generators compared': 20, 'granulation seeds compared': 10, 'large batches compared': 30}
ASSUMPTIONS = ['numpy and jax random streams are themselves deterministic']


def spell(x):
    """all of x as text: repr() leaves out the middle of long arrays and the last digits of short ones"""
    if isinstance(x, np.ndarray):
        return f'{x.shape}{x.dtype}{x.tolist()!r}'
    if isinstance(x, dict):
        return '{%s}' % ','.join(f'{spell(k)}:{spell(v)}' for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return '[%s]' % ','.join(map(spell, x))
    return repr(x)


def digest(x):
    return hashlib.blake2b(spell(x).encode(), digest_size=12).hexdigest()


def flare_state(f):
    return [float(f.fwhm.to_value(u.day)), float(f.energy.to_value(u.erg)), float(f.lat.to_value(u.deg)),
            float(f.lon.to_value(u.deg)), float(f.Teff.to_value(u.K)), float(f.tpeak.to_value(u.day))]


def state(st):
    return dict(spots=[gen.spot_state(s) for s in st.spots.spots], fac=[gen.facula_state(f) for f in st.faculae.faculae],
                flares=None if st.flares is None else [flare_state(f) for f in st.flares.flares])


def sim(script_seed, seed, gran_seed=7, shared=True):
    """generator: yields the full observable state after every step. script_seed fixes the scenario,
    seed the caller's random generators."""
    rng = np.random.default_rng(script_seed)
    spec = gen.star(rng, big=False)
    sg, fg, flg = gen.spotgen_spec(rng, spec['radius']), gen.facgen_spec(rng, spec['radius']), gen.flaregen_spec(rng, rate=4.)
    rs = [np.random.default_rng(seed)]*3 if shared else [np.random.default_rng([seed, k]) for k in range(3)]
    spec['gran'] = dict(mean=.3, amp=.02, period=5., dteff=120., seed=gran_seed)
    st = gen.mk_star(spec, rng=rs[0], spot_generator=gen.mk_spotgen(sg, rs[0]), fac_generator=gen.mk_facgen(fg, rs[1]),
                     flare_generator=gen.mk_flaregen(flg, rs[2]))
    for k in range(7):
        op = gen.pick(rng, ['births', 'birthf', 'mature', 'flares', 'age', 'births', 'birthf'])
        n = len(st.spots.spots)+len(st.faculae.faculae)
        x = float(rng.random())
        had = {id(f) for f in list(st.spots.spots)+list(st.faculae.faculae)}
        if op == 'births' and n < 40:
            one = float(st.spot_generator.get_n_spots_to_birth(1*u.day, st.radius))
            st.birth_spots((1+3*x)/one*u.day)
        elif op == 'birthf' and n < 40:
            one = float(st.fac_generator.get_n_faculae_expected(1*u.day, st.radius))
            st.birth_faculae((1+3*x)/one*u.day)
        elif op == 'mature' and n < 40:
            st.generate_mature_spots(.02*x)
        elif op == 'flares':
            st.get_flares_over_observation((.5+x)*u.day)
        else:
            st.age(x*u.day)
        la, lo = gen.view(rng, spec)
        cov = st.calc_coverage(gen.obs(la, lo), granulation_fraction=.1)
        made = len(st.flares.flares) if op == 'flares' else sum(id(f) not in had for f in list(st.spots.spots)+list(st.faculae.faculae))
        out = dict(op=op, made=made, state=state(st), cov=[{k: float(v) for k, v in c.items()} for c in cov[:2]])
        if st.flares is not None:
            out['ta'] = [float(d['timearea'].to_value('km2 hr')) for d in
                         st.get_flare_int_over_timeperiod(.2*u.day, .9*u.day, gen.obs(la, lo))]
        if k == 6:
            out['gran'] = np.asarray(st.get_granulation_coverage(np.array([0, 1., 2.5, 9.])*u.hr)).tolist()
        yield out


def globals_state():
    s = np.random.get_state()
    return digest((s[0], s[1].tolist(), s[2:])), digest(random.getstate())


def disturb(rng):
    np.random.seed(int(rng.integers(1 << 31)))
    random.seed(int(rng.integers(1 << 31)))
    np.random.random(int(rng.integers(1, 20)))
    random.random()


def pull(ctx, g, what):
    before = globals_state()
    out = next(g)
    ctx.ok(globals_state() == before, f'{what}: {out["op"]} advanced a global random generator')
    ctx.event('global states compared')
    return out


def same(ctx, a, b, what, **d):
    ctx.event('steps compared')
    if digest(a) != digest(b):
        part = next((k for k in a if digest(a[k]) != digest(b.get(k))), '?')
        ctx.fail(f'{what}: {part} differs after {a["op"]}', first=a[part], second=b.get(part), **d)


def repeat(ctx, rng):
    script, seed, shared = int(rng.integers(1 << 31)), int(rng.integers(1 << 31)), bool(rng.random() < .5)
    disturb(rng)
    ref_run = []
    g = sim(script, seed, shared=shared)
    for _ in range(7):
        ref_run.append(pull(ctx, g, 'a simulation'))
    disturb(rng)
    # again, with the globals disturbed and a second simulation interleaved
    g, other = sim(script, seed, shared=shared), sim(script+1, seed)
    for k in range(7):
        disturb(rng)
        same(ctx, ref_run[k], pull(ctx, g, 'a repeated simulation'), 'the same simulation with equal seeds', script=script, seed=seed)
        next(other)
    ctx.key(script, seed)
    # another seed gives another population
    g = sim(script, seed+1, shared=shared)
    alt = [next(g) for _ in range(7)]
    diffs = [digest(a['state']) != digest(b['state']) for a, b in zip(ref_run, alt)]
    if sum(r['made'] for r in ref_run):      # at least one feature or flare was drawn
        ctx.ok(any(diffs), 'another seed gives the same populations', script=script, seed=seed)
        ctx.event('other seeds compared')
    ctx.sample(dict(script=script, seed=seed, ops=[r['op'] for r in ref_run]))


def elsewhere(ctx, rng):
    """the same simulation in a fresh interpreter with another hash seed"""
    script, seed = int(rng.integers(1 << 31)), int(rng.integers(1 << 31))
    here = [digest(x) for x in sim(script, seed)]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
    code = ('import sys, json, numpy\n'
            f'sys.path[:0] = {[core.ROOT] + ([core.REPO] if core.REPO != "/repo" else [])!r}\n'
            'import warnings; warnings.simplefilter("ignore")\n'
            'numpy.random.random(5)\n'
            'from vsm.props import c16\n'
            f'print(json.dumps([c16.digest(x) for x in c16.sim({script},{seed})]))')
    p = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True)
    if p.returncode:
        raise core.Inconclusive(p.stderr[-500:])
    there = json.loads(p.stdout.strip().splitlines()[-1])
    ctx.ok(here == there, 'a simulation differs between two processes', script=script, seed=seed)
    ctx.event('runs in another process compared')
    ctx.key('p', script, seed)


def defaults(ctx, rng):
    """a star without generators of its own draws from the generator passed to the star"""
    seed = int(rng.integers(1 << 31))

    def mature(s):
        r = np.random.default_rng(s)
        before = repr(r.bit_generator.state)
        st = Star(3000*u.K, 1*u.R_sun, 10*u.day, SpotCollection(grid_params=80), FaculaCollection(grid_params=80), grid_params=80, rng=r)
        st.generate_mature_spots(1e-4)
        for name, g in (('spot', st.spot_generator), ('facula', st.fac_generator), ('flare', st.flare_generator)):
            ctx.ok(g.rng is r, f'the default {name} generator of a star does not use the generator passed to the star')
        return state(st), before != repr(r.bit_generator.state)
    disturb(rng)
    was = globals_state()
    a, moved = mature(seed)
    ctx.ok(globals_state() == was, 'building a default star and adding mature spots advanced a global random generator')
    ctx.event('global states compared')
    disturb(rng)
    b, _ = mature(seed)
    c, _ = mature(seed+1)
    ctx.ok(moved, 'mature spots on a default star do not advance the generator passed to it')
    ctx.ok(digest(a) == digest(b), 'mature spots on a default star are not reproducible')
    ctx.ok(digest(a) != digest(c), 'mature spots on a default star do not depend on the generator passed to it')
    ctx.ok(len(a['spots']) >= 1, 'no mature spots')
    ctx.event('default generators compared')
    ctx.key('d', seed)


def parts(ctx, rng):
    """every generator on its own: equal state gives equal output; only its own stream is consumed"""
    s = int(rng.integers(1 << 31))
    radius = float(gen.loguni(rng, .1, 2)*6.957e5)
    sg, fg, flg = gen.spotgen_spec(rng, radius), gen.facgen_spec(rng, radius), gen.flaregen_spec(rng, rate=6.)
    bystander = np.random.default_rng(1)
    b0 = repr(bystander.bit_generator.state)
    for make, calls in (
            (lambda r: gen.mk_spotgen(sg, r), [lambda g: [gen.spot_state(x) for x in g.generate_spots(3)],
                                               lambda g: [gen.spot_state(x) for x in g.generate_mature_spots(.01, radius*u.km)],
                                               lambda g: [v.to_value(u.deg).tolist() for v in g.get_coordinates(4)]]),
            (lambda r: gen.mk_facgen(fg, r), [lambda g: [gen.facula_state(x) for x in g.generate_faculae(3)],
                                              lambda g: [v.to_value(u.deg).tolist() for v in g.get_coords(4)]]),
            (lambda r: gen.mk_flaregen(flg, r), [lambda g: [flare_state(x) for x in g.generate_flare_series(2*u.day)],
                                                 lambda g: g.get_peaks(9).tolist(), lambda g: g.gen_fwhm(4).to_value(u.day).tolist(),
                                                 lambda g: g.gen_teffs(3).to_value(u.K).tolist(),
                                                 lambda g: [v.to_value(u.deg).tolist() for v in g.gen_coords(4)]])):
        for call in calls:
            g1 = make(np.random.default_rng(s))
            before = globals_state()
            x = call(g1)
            ctx.ok(globals_state() == before, f'{type(g1).__name__} advanced a global random generator')
            ctx.event('global states compared')
            disturb(rng)
            make(np.random.default_rng(s+5)).rng.random(3)
            g2 = make(np.random.default_rng(s))
            y = call(g2)
            ctx.ok(digest(x) == digest(y), f'{type(g1).__name__} is not determined by its generator', first=x, second=y)
            ctx.ok(repr(g1.rng.bit_generator.state) == repr(g2.rng.bit_generator.state), 'equal calls consume the stream differently')
            ctx.event('steps compared')
            # a second call continues the stream
            y2 = call(g2)
            if isinstance(x, list) and x and not all(isinstance(v, float) and v == x[0] for v in x):
                if not (type(g1).__name__ == 'FlareGenerator' and (flg['ts'] == 0 or flg['fs'] == 0)):
                    ctx.ok(digest(y2) != digest(x), f'{type(g1).__name__}: consecutive calls repeat the same numbers', first=x, second=y2)
    # batches as large as a long run makes them
    many = int(gen.loguni(rng, 12, 150))

    def crowd(seed):
        out = []
        g = gen.mk_spotgen(sg, np.random.default_rng(seed))
        t = many/float(g.get_n_spots_to_birth(1*u.day, radius*u.km))*u.day
        out.append([gen.spot_state(x) for x in g.birth_spots(t, radius*u.km)]+[gen.spot_state(x) for x in g.generate_spots(many)])
        g = gen.mk_facgen(fg, np.random.default_rng(seed))
        t = many/float(g.get_n_faculae_expected(1*u.day, radius*u.km))*u.day
        out.append([gen.facula_state(x) for x in g.birth_faculae(t, radius*u.km)]+[gen.facula_state(x) for x in g.generate_faculae(many)])
        g = gen.mk_flaregen(flg, np.random.default_rng(seed))
        out.append([flare_state(x) for x in g.generate_flare_series(many/6*u.day)])
        return out
    before = globals_state()
    x = crowd(s)
    ctx.ok(globals_state() == before, f'about {many} features advanced a global random generator')
    disturb(rng)
    ctx.ok(digest(x) == digest(crowd(s)), f'about {many} features are not determined by their generator')
    ctx.event('large batches compared')
    ctx.ok(repr(bystander.bit_generator.state) == b0, 'a generator not passed anywhere was advanced')
    ctx.key('g', s)


def granulation(ctx, rng):
    t = np.array([0., .7, 2., 11.])*u.hr
    s = int(rng.integers(1, 1 << 30))
    g = dict(mean=.5, amp=.02, period=4., dteff=100., seed=s)
    before = globals_state()
    a = np.asarray(gen.mk_gran(g).get_coverage(t))
    ctx.ok(globals_state() == before, 'granulation advanced a global random generator')
    disturb(rng)
    o = gen.mk_gran(g)
    o.get_coverage(np.linspace(0, 3, 5)*u.hr)
    b = np.asarray(o.get_coverage(t))
    c = np.asarray(gen.mk_gran(dict(g, seed=s ^ (1 << int(rng.integers(30))))).get_coverage(t))
    ctx.ok(np.array_equal(a, b), 'granulation with the same seed differs', first=a, second=b)
    ctx.ok(not np.array_equal(a, c), 'granulation does not depend on its seed', first=a, second=c)
    ctx.event('granulation seeds compared')
    ctx.key('gr', s)


def redrawn(ctx, rng):
    """draws that had to be repeated"""
    c21.redrawn(ctx, rng, law=False)


WORKLOADS = [('repeat', repeat, 72, 1500), ('elsewhere', elsewhere, 4, 24), ('defaults', defaults, 24, 200),
             ('parts', parts, 40, 800), ('granulation', granulation, 12, 100), ('redrawn', redrawn, 8, 80)]
