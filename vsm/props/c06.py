"""Spots grow exponentially to their maximum, then decay linearly to zero."""
import numpy as np
from astropy import units as u
from vspec_vsm.config import MSH
from vspec_vsm.spots import SpotCollection

from vsm import gen, judges, mission, mon, ref

RULE = ('random spots (growth and decay rates including zero, starting at or below the maximum, growing or decaying) '
        'aged through random step sequences (tiny, zero, exactly at the turning point, across it, past the end of '
        'life), alone, in collections and on stars; every StarSpot.age call is judged against the closed form, and '
        'the state after the whole sequence against the closed form for the total time. Distinct: a different '
        '(spot, steps); non-trivial: positive total time and a non-zero rate.')
NEED = {'spot steps judged': 3000, 'spot turning points judged': 200, 'spot ends of life judged': 200,
        'whole histories judged': 300, 'zero-time steps judged': 100}
ASSUMPTIONS = ['growing spots start at or below their maximum area']
TABLE = {'StarSpot.age': (judges.spot_aged, judges.snap_spot)}


def spot_of(rng):
    amax = gen.loguni(rng, 0.01, 1e6)
    growing = bool(rng.random() < .7)
    area = amax*float(gen.pick(rng, [1., 1-1e-12, 0.999, 0.5, 0.1, 1e-3, float(rng.uniform(0.01, 1))]))
    s = gen.spot(rng, ref.RSUN_KM)
    s.update(area=area, area_max=amax, growing=growing,
             g=float(gen.pick(rng, [0., 0., 0.52, 1.83, 0.01, 20., 1e-3, float(rng.uniform(0, 3))])),
             d=float(gen.pick(rng, [0., 0., 0.01, 0.1, 1., 50., float(rng.uniform(0, 1))]))*amax)
    return s


def steps_of(rng, s):
    k = np.log1p(s['g'])
    ttm = 0. if not s['growing'] else (np.log(s['area_max']/s['area'])/k if k > 0 else np.inf)
    tdec = (s['area_max'] if s['growing'] else s['area'])/s['d'] if s['d'] > 0 else np.inf
    tl = ttm if np.isfinite(ttm) and ttm > 0 else 1.
    td = tdec if np.isfinite(tdec) else 3.
    out = []
    for _ in range(int(rng.integers(1, 9))):
        c = rng.random()
        if c < 0.1:
            out.append(0.)
        elif c < 0.2:
            out.append(1e-7)
        elif c < 0.32:
            out.append(float(tl))
        elif c < 0.35:       # just short of the maximum
            out.append(float(tl)*(1-gen.loguni(rng, 1e-7, 1e-2)))
        elif c < 0.45:
            out.append(float(td))
        elif c < 0.55:
            out.append(float(tl+td))
        elif c < 0.65:
            out.append(float((tl+td)*3))
        elif c < 0.69:
            out.append(gen.loguni(rng, 1e3, 1e7))
        elif c < 0.82:
            out.append(float(rng.uniform(0, 1.2))*tl)
        else:
            out.append(float(rng.uniform(0, 1.2))*td)
    return [min(x, 1e7) for x in out]


@mon.monitored(TABLE)
def steps(ctx, rng):
    s = spot_of(rng)
    q = gen.Units(rng) if rng.random() < .4 else gen.CANONICAL
    sp = gen.mk_spot(s, q, grid_params=10)
    one = gen.mk_spot(s, grid_params=10)
    ts = steps_of(rng, s)
    was_decaying = False
    # a rounding error of the area moves the turning point, and with it the decay
    slip = 1e-14*s['d']/np.log1p(s['g']) if s['g'] > 0 else 0.
    for t in ts:
        a0, g0 = sp.area_current.to_value(MSH), sp.is_growing
        sp.age(q(t, 'time'))
        if t == 0:
            ctx.event('zero-time steps judged')
            ctx.ok(abs(sp.area_current.to_value(MSH)-a0) <= 1e-12*s['area_max']+slip, 'ageing by zero time changes the area',
                   spot=s)
            if s['area'] < s['area_max']*(1-1e-9) and a0 < s['area_max']*(1-1e-9):
                ctx.ok(bool(sp.is_growing) == bool(g0), 'ageing by zero time changes the phase', spot=s)
        was_decaying |= not g0
        if was_decaying:
            ctx.ok(not sp.is_growing, 'growth resumed', spot=s, steps=ts)
        if s['g'] == 0 and s['d'] == 0 and (s['growing'] is False or s['area'] < s['area_max']):
            ctx.ok(abs(sp.area_current.to_value(MSH)/s['area']-1) < 1e-12, 'a spot without rates changed', spot=s)
    T = float(sum(ts))
    a, g, _ = ref.spot_age(s['area'], s['growing'], s['area_max'], s['g'], s['d'], T)
    got = sp.area_current.to_value(MSH)
    tol = 1e-8*s['area_max'] + 1e-9*s['d']*T
    ctx.ok(abs(got-a) <= tol, f'area after the steps is {got!r}, one step of the same total time gives {a!r}',
           spot=s, steps=ts)
    one.age(T*u.day)
    ctx.ok(abs(one.area_current.to_value(MSH)-a) <= tol, 'one step of the total time differs', spot=s, steps=ts)
    ctx.event('whole histories judged')
    if T > 0 and (s['g'] > 0 or s['d'] > 0):
        ctx.key(s, ts)
    ctx.sample(dict(spot=s, steps_days=ts))


@mon.monitored(TABLE)
def collections(ctx, rng):
    specs = [spot_of(rng) for _ in range(int(rng.integers(1, 7)))]
    objs = [gen.mk_spot(s, grid_params=10) for s in specs]
    coll = SpotCollection(*objs, grid_params=10)
    ts = steps_of(rng, specs[0])[:4]
    for t in ts:
        coll.age(t*u.day)
    ctx.key(specs, ts)


@mon.monitored(TABLE)
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=10, queries=False)
    for _ in range(3):
        st.age(mission.step_time(rng, spec)*u.day)
    ctx.key(spec, ops)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('steps', steps, 1200, 30000), ('collections', collections, 150, 3000), ('history', history, 50, 800)]
