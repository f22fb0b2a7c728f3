"""A planet behind the star is hidden by exactly the overlap."""
import math

import numpy as np
from astropy import units as u

from vsm import gen, judges, mon, ref
from vsm.props.c11 import bare, viewpoint

RULE = ('planets on random, grazing, central and contact positions of their orbit, any winding of the phase, sizes from '
        '0.001 to exactly 1 stellar radius, both grid kinds; every visible fraction and far-side mask is compared with '
        'the lens formula. Sweeps from first contact to mid-eclipse are checked for continuity and monotonicity. '
        'Distinct: a different (star, planet); non-trivial: the planet is on the far side.')
NEED = {'planet fractions judged': 3000, 'far-side planets judged': 1500, 'near-side planets judged': 80,
        'partial eclipses judged': 500, 'contacts judged': 150, 'sweeps judged': 40, 'total eclipses judged': 100}
ASSUMPTIONS = ['planet not larger than the star', 'phases within 1e-12 of quadrature may count as either side']
TABLE = {'Star.get_transit_mask': judges.eclipse}


def ask(ctx, st, o, p, q=gen.CANONICAL, cov=False):
    kw = gen.mask_kw(p, q)
    _, f = st.get_transit_mask(o['lat'], o['lon'], **kw)
    if cov:
        kw['planet_radius'] = kw.pop('radius')      # the same quantities: rounding decides at quadrature
        _, c, f2 = st.calc_coverage(o, **kw)
        ctx.ok(abs(float(f2)-float(f)) < 1e-12, f'coverage reports planet fraction {f2!r}, the mask {f!r}')
        if math.cos(math.radians(p['phase'])) > 1e-9:
            ctx.ok(abs(sum(float(v) for v in c.values())) < 1e-12, 'a planet behind the star occults part of it')
    return float(f)


def far(x, y, a):
    """phase and inclination (deg) that put a far-side planet at (x, y) stellar radii"""
    ph = -math.asin(max(-1, min(1, x/a)))
    c = -y/(a*math.cos(ph)) if math.cos(ph) else 0
    return math.degrees(ph), math.degrees(math.acos(max(-1, min(1, c))))


@mon.monitored(TABLE)
def positions(ctx, rng):
    spec = bare(rng, gen.grid(rng))
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    st = gen.mk_star(spec, q)
    o = gen.obs(*viewpoint(rng, st), q)
    R = spec['radius']
    for _ in range(10):
        p = gen.planet(rng, R)
        if rng.random() < .8 and math.cos(math.radians(p['phase'])) < 0:
            p['phase'] -= 180
        f = ask(ctx, st, o, p, q, cov=rng.random() < .1)
        if f == 0:
            ctx.event('total eclipses judged')
        if math.cos(math.radians(p['phase'])) > 0:
            ctx.key(R, p)
        ctx.sample(dict(planet=p, radius=R, fraction=f))
        # the public helper itself
        if math.cos(math.radians(p['phase'])) > 1e-9:
            g = float(st.get_pl_frac(q(p['phase']-180, 'angle'), q(p['a'], 'len'), q(p['rp'], 'len'), q(p['inc'], 'angle')))
            ctx.ok(abs(f-g) < 1e-7, f'get_pl_frac gives {g!r}, the mask {f!r}')


@mon.monitored(TABLE)
def contacts(ctx, rng):
    spec = bare(rng, int(rng.integers(50, 120)))
    st = gen.mk_star(spec)
    o = gen.obs(gen.lat(rng), gen.lon(rng))
    R = spec['radius']
    for _ in range(8):
        rp = float(gen.pick(rng, [1., 0.5, 0.1, gen.loguni(rng, 1e-3, 1), rng.uniform(.01, 1)]))
        d = float(gen.pick(rng, [1+rp, 1-rp, 1+rp+1e-15, abs(1-rp-1e-15), 1-rp+1e-15, (1+rp)*(1-1e-15), 0.,
                               1+rp*rng.uniform(-1, 1)]))
        t = float(gen.pick(rng, [0, np.pi, np.pi/2, rng.uniform(0, 6.28)]))
        a = float(gen.pick(rng, [2.5, 4., gen.loguni(rng, 2.1, 50), gen.loguni(rng, 50, 5000)]))
        ph, inc = far(d*math.cos(t), d*math.sin(t), a)
        if math.cos(math.radians(ph)) < 1e-6:
            continue
        # rounding of the inputs moves the contact; the judge compares with the overlap at that position
        ask(ctx, st, o, dict(a=a*R, rp=rp*R, phase=ph+float(gen.pick(rng, [0, 360, -360])), inc=inc))
        ctx.event('contacts judged')
    # a planet exactly as large as the star, given in the same unit
    for ph in (0., 360., 10., 20., 35.):
        p = dict(a=R*4, rp=R, phase=ph, inc=90.)
        ask(ctx, st, o, p)
        ctx.event('contacts judged')
    ctx.key(R, ctx.current[1])


@mon.monitored(TABLE)
def sweeps(ctx, rng):
    spec = bare(rng, int(rng.integers(50, 120)))
    st = gen.mk_star(spec)
    o = gen.obs(gen.lat(rng), gen.lon(rng))
    R = spec['radius']
    rp = float(gen.pick(rng, [0.05, 0.2, 0.5, 1., rng.uniform(.02, 1)]))
    a = float(gen.loguni(rng, 2.2, 30))
    b = float(rng.uniform(-1, 1))*(1-rp) if rng.random() < .7 else 0.
    inc = math.degrees(math.acos(-b/a))
    end = math.degrees(math.asin(min(1, (1+rp)*1.2/a)))
    side = float(gen.pick(rng, [1, -1]))
    n = 60
    fr = [ask(ctx, st, o, dict(a=a*R, rp=rp*R, phase=side*float(x), inc=inc)) for x in np.linspace(end, 0, n)]
    d = np.diff(fr)
    ctx.ok(np.all(d <= 1e-7), 'the visible fraction grows while the planet moves behind the star', rp=rp, a=a, b=b, fractions=fr)
    # the overlap changes by at most (chord x step)
    step = math.radians(end)/(n-1)*a
    ctx.ok(np.max(np.abs(d)) <= 2*rp*step/(math.pi*rp**2)*1.05+1e-6, 'the visible fraction jumps', rp=rp, a=a, b=b, fractions=fr)
    ctx.ok(abs(fr[-1]) < 2e-6 if abs(b)+rp <= 1 else True, f'mid-eclipse fraction {fr[-1]!r}', rp=rp, b=b)
    ctx.ok(abs(fr[0]-1) < 2e-6 if a*math.sin(math.radians(end)) > 1+rp else True, f'fraction before contact {fr[0]!r}')
    ctx.event('sweeps judged')
    ctx.key(R, rp, a, b)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('positions', positions, 160, 4000), ('contacts', contacts, 60, 1500), ('sweeps', sweeps, 60, 1200)]
