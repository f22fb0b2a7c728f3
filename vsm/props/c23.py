"""Birth rates balance decay at the configured coverage."""
import numpy as np
from astropy import units as u
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.faculae import Facula, FaculaCollection
from vspec_vsm.spots import SpotCollection, StarSpot

from vsm import gen, ref

RULE = ('spot and facula generators with random parameters, units and stellar radii; a real feature with the typical '
        'parameters is born, aged in small steps and removed by its collection, its area is integrated on the way, and the '
        'expected number of births times that area-time is compared with coverage x surface x time; also the reported mean '
        'lifetime and mean area, and the proportionality to time, coverage and surface. Distinct: a different '
        'generator; non-trivial: the feature lived and was removed.')
NEED = {'spot lives integrated': 60, 'fast-growing spot lives integrated': 20, 'facula lives integrated': 40,
        'ageing steps observed': 20000, 'proportionality judged': 100, 'never-decaying generators judged': 20}
ASSUMPTIONS = ['the life is integrated with trapezoids over about 300 steps: 1.5 % tolerance',
               'known finding: expectation, mean lifetime and mean area of spots take the growth rate as continuous while '
               'ageing compounds it daily; only deviations of exactly that size are accepted']


def live(ctx, coll, members, area, total):
    """age a one-feature collection until it is empty: (lifetime, integral of the area, largest area)"""
    n = 320
    dt = total/n
    prev = area(members()[0])
    t = integral = 0.
    peak = prev
    while members():
        coll.age(dt*u.day)
        t += dt
        now = area(members()[0]) if members() else 0.
        integral += .5*(prev+now)*dt
        peak = max(peak, now)
        prev = now
        ctx.event('ageing steps observed')
        if t > 3*total+1:
            ctx.fail(f'a typical feature is still there after {t:.2f} days')
    return t-dt/2, integral, peak, dt


def near(a, b, tol):
    return abs(a/b-1) <= tol


def spot_life(ctx, rng, fast):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s = gen.spotgen_spec(rng, radius)
    s['grid'] = 12
    s['g'] = gen.loguni(rng, .1, 3 if rng.random() < .75 else 40) if fast else gen.loguni(rng, .003, .02)
    if fast and rng.random() < .4:
        s['g'] = .52
    if rng.random() < .25:
        s['cov'] = gen.loguni(rng, 1e-6, .9)
    s['init'] = s['mean']*float(rng.uniform(.02, .8) if rng.random() < .8 else rng.uniform(.8, .99))
    # growth and decay both matter
    s['d'] = s['mean']*s['g']*gen.loguni(rng, .1, 3)
    g = gen.mk_spotgen(s, np.random.default_rng(1), q)
    k = np.log1p(s['g'])
    A, A0, d = s['mean'], s['init'], s['d']
    law = np.log(A/A0)/k+A/d          # life of the ageing law, to size the steps
    gm = CoordinateGrid.new(12)
    sp = StarSpot(10*u.deg, 20*u.deg, q(A, 'area'), q(A0, 'area'), 2500*u.K, 2700*u.K, growth_rate=q(s['g'], 'rate'),
                  decay_rate=q(d, 'decay'), gridmaker=gm)
    c = SpotCollection(sp, gridmaker=gm)
    life, integral, _, dt = live(ctx, c, lambda: c.spots, lambda x: float(x.area_current.to_value(gen.MSH)), law)
    t = gen.loguni(rng, .01, 100) if rng.random() < .8 else gen.loguni(rng, 1e-5, .01)
    nexp = float(g.get_n_spots_to_birth(q(t, 'time'), q(radius, 'len')))
    surface = 4*np.pi*radius**2/ref.MSH_KM2
    balance = nexp*integral/(s['cov']*surface*t)
    ml = float(g.mean_lifetime.to_value(u.day))
    ma = float(g.mean_area.to_value(gen.MSH))
    # what the continuous-rate reading gives
    cont_int = (A-A0)/s['g']+A**2/(2*d)
    cont_life = np.log(A/A0)/s['g']+A/d
    info = dict(spec=s, days=t, radius_km=radius, expected=nexp)
    tol = .015
    items = [('expected births x area-time over coverage x surface x time', balance, 1., integral/cont_int),
             ('mean lifetime over the observed one', ml/life, 1., cont_life/life),
             ('mean area over the observed one', ma/(integral/life), 1., (cont_int/cont_life)/(integral/life))]
    for name, got, want, cont in items:
        if near(got, want, tol):
            continue
        ctx.ok(near(got, cont, 1e-6 if name[0] != 'e' else 1e-5), f'{name} is {got:.5f} (growth rate {s["g"]:.4f} per day; '
               f'{cont:.5f} is explained by reading the rate as continuous)', **info)
        if fast:
            # the finding is about daily compounding; a feature that lives differently is another matter
            ctx.ok(near(integral, (A-A0)/k+A**2/(2*d), .015) and near(life, law, .015), f'{name} is {got:.5f}', **info)
            ctx.known_finding('continuous-growth-rate', f'{name} is {got:.5f}')
        else:
            ctx.fail(f'{name} is {got:.5f} at slow growth', **info)
    ctx.margin(('fast' if fast else 'slow')+' spots: births x area-time / coverage', balance)
    ctx.event('fast-growing spot lives integrated' if fast else 'spot lives integrated')
    proportional(ctx, rng, lambda t_, r_: float(g.get_n_spots_to_birth(t_, r_)), g, t, radius, q)
    ctx.key(s, fast)
    ctx.sample(info)


def proportional(ctx, rng, n, g, t, radius, q):
    base = n(q(t, 'time'), q(radius, 'len'))
    f = gen.loguni(rng, .1, 10)
    ctx.close(n(q(t*f, 'time'), q(radius, 'len')), base*f, 'expectation over another time', rtol=1e-9)
    ctx.close(n(q(t, 'time'), q(radius*f, 'len')), base*f**2, 'expectation for another radius', rtol=1e-9)
    ctx.close(n(q(0., 'time'), q(radius, 'len')), 0., 'expectation over no time', atol=0)
    old = g.coverage
    g.coverage = old*f
    ctx.close(n(q(t, 'time'), q(radius, 'len')), base*f, 'expectation for another coverage', rtol=1e-9)
    g.coverage = 0.
    ctx.close(n(q(t, 'time'), q(radius, 'len')), 0., 'expectation for no coverage', atol=0)
    g.coverage = old
    ctx.event('proportionality judged')


def slow(ctx, rng):
    spot_life(ctx, rng, False)


def fast(ctx, rng):
    spot_life(ctx, rng, True)


def facula(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s = gen.facgen_spec(rng, radius, small=True)
    s['grid'] = 12
    if rng.random() < .25:
        s.update(cov=gen.loguni(rng, 1e-6, .9), rsig=float(rng.uniform(0, .8)), lsig=float(rng.uniform(0, .8)))
    g = gen.mk_facgen(s, np.random.default_rng(1), q)
    gm = CoordinateGrid.new(12)
    f = gen.mk_facula(dict(lat=5., lon=20., rmax=s['r'], r=s['r']/np.e**2, depth=s['depth'], life=s['life'], fslope=0.,
                           fmin=0., fbase=-100., wslope=0., wint=100., growing=True), q, gm)
    c = FaculaCollection(f, gridmaker=gm)
    life, integral, _, _ = live(ctx, c, lambda: c.faculae, lambda x: np.pi*float(x.radius.to_value(u.km))**2, 2*s['life'])
    t = gen.loguni(rng, .01, 100) if rng.random() < .8 else gen.loguni(rng, 1e-5, .01)
    nexp = float(g.get_n_faculae_expected(q(t, 'time'), q(radius, 'len')))
    balance = nexp*integral/(s['cov']*4*np.pi*radius**2*t)
    ctx.ok(near(balance, 1, .015), f'expected births x area-time is {balance:.5f} times coverage x surface x time', spec=s, days=t)
    ma = float(g.mean_area.to_value(u.km**2))
    ctx.ok(near(ma, integral/life, .015), f'mean area is {ma/(integral/life):.5f} times the observed one', spec=s)
    ctx.margin('faculae: births x area-time / coverage', balance)
    ctx.event('facula lives integrated')
    proportional(ctx, rng, lambda t_, r_: float(g.get_n_faculae_expected(t_, r_)), g, t, radius, q)
    ctx.key('f', s)


def never(ctx, rng):
    """spots that never decay need no replacement"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng)
    s = gen.spotgen_spec(rng, radius)
    s['grid'] = 12
    k = rng.random()
    if k < .5:
        s['d'] = 0.
    elif k < .75:
        s['g'] = 0.
    else:
        s['g'] = s['d'] = 0.
    g = gen.mk_spotgen(s, np.random.default_rng(1), q)
    t = gen.loguni(rng, .1, 1e4)
    n = float(g.get_n_spots_to_birth(q(t, 'time'), q(radius, 'len')))
    ctx.ok(n == 0, f'{n!r} births expected of spots that never decay', spec=s)
    ctx.ok(len(g.birth_spots(q(t, 'time'), q(radius, 'len'))) == 0, 'spots that never decay are born', spec=s)
    ctx.ok(float(g.mean_lifetime.to_value(u.day)) == np.inf, 'finite mean lifetime of spots that never decay', spec=s)
    if s['d'] == 0:
        ctx.ok(0 < float(g.mean_area.to_value(gen.MSH)) < np.inf, 'mean area of static spots', spec=s)
    ctx.event('never-decaying generators judged')
    ctx.key('n', s)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('slow', slow, 70, 1200), ('fast', fast, 30, 500), ('facula', facula, 50, 800), ('never', never, 30, 300)]
