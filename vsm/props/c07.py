"""Faculae grow and shrink exponentially about their maximum radius."""
import numpy as np
from astropy import units as u
from vspec_vsm.faculae import FaculaCollection

from vsm import gen, judges, mission, mon, ref

RULE = ('random faculae (lifetimes over five decades, starting at or below the maximum radius, growing or shrinking) '
        'aged through random step sequences (tiny, zero, exactly at the maximum, across it, many lifetimes), alone, '
        'in collections and on stars; every Facula.age call is judged against the closed form, and the state after '
        'the whole sequence against the closed form for the total time. Distinct: a different (facula, steps); '
        'non-trivial: positive total time.')
NEED = {'facula steps judged': 3000, 'facula turning points judged': 200, 'whole histories judged': 300,
        'zero-time steps judged': 100}
ASSUMPTIONS = ['growing faculae start at or below their maximum radius']
TABLE = {'Facula.age': (judges.facula_aged, judges.snap_fac)}


def fac_of(rng):
    f = gen.facula(rng, ref.RSUN_KM)
    rmax = gen.loguni(rng, 1, 1e6)
    f.update(rmax=rmax, r=rmax*float(gen.pick(rng, [1., 1-1e-12, 0.999, 0.5, np.exp(-2), 1e-3, float(rng.uniform(.01, 1))])),
             life=gen.loguni(rng, 1e-2, 1e3) if rng.random() < .85 else gen.loguni(rng, 1e-4, 1e6), growing=bool(rng.random() < .7))
    return f


def steps_of(rng, f):
    ttm = 0.5*f['life']*np.log(f['rmax']/f['r'])
    out = []
    for _ in range(int(rng.integers(1, 9))):
        c = rng.random()
        out.append(0. if c < .1 else 1e-7 if c < .2 else float(ttm) if c < .37 else
                   float(ttm)*(1-gen.loguni(rng, 1e-7, 1e-2)) if c < .4 else      # just short of the maximum
                   float(rng.uniform(0, 1.2))*float(ttm) if c < .6 else
                   float(rng.uniform(0, 3))*f['life'] if c < .9 else 20.*f['life'])
    return out


@mon.monitored(TABLE)
def steps(ctx, rng):
    f = fac_of(rng)
    q = gen.Units(rng) if rng.random() < .4 else gen.CANONICAL
    o = gen.mk_facula(f, q, grid_params=10)
    one = gen.mk_facula(f, grid_params=10)
    ts = steps_of(rng, f)
    shrinking = False
    for t in ts:
        r0, g0 = o.radius.to_value(u.km), o.is_growing
        o.age(q(t, 'time'))
        if t == 0:
            ctx.event('zero-time steps judged')
            ctx.ok(abs(o.radius.to_value(u.km)-r0) <= 1e-12*f['rmax'], 'ageing by zero time changes the radius', facula=f)
            if r0 < f['rmax']*(1-1e-9):
                ctx.ok(bool(o.is_growing) == bool(g0), 'ageing by zero time changes the phase', facula=f)
        shrinking |= not g0
        ctx.ok(not (shrinking and o.is_growing), 'growth resumed', facula=f, steps=ts)
    T = float(sum(ts))
    r, g, _ = ref.facula_age(f['r'], f['growing'], f['rmax'], f['life'], T)
    tol = 1e-8*(1+T/f['life'])*r
    ctx.ok(abs(o.radius.to_value(u.km)-r) <= tol, f'radius after the steps is {o.radius!r}, one step of the same total '
           f'time gives {r!r} km', facula=f, steps=ts)
    one.age(T*u.day)
    ctx.ok(abs(one.radius.to_value(u.km)-r) <= tol, 'one step of the total time differs', facula=f, steps=ts)
    ctx.event('whole histories judged')
    if T > 0:
        ctx.key(f, ts)
    ctx.sample(dict(facula=f, steps_days=ts))


@mon.monitored(TABLE)
def collections(ctx, rng):
    specs = [fac_of(rng) for _ in range(int(rng.integers(1, 7)))]
    coll = FaculaCollection(*[gen.mk_facula(s, grid_params=10) for s in specs], grid_params=10)
    ts = steps_of(rng, specs[0])[:4]
    for t in ts:
        coll.age(t*u.day)
    ctx.key(specs, ts)


@mon.monitored(TABLE)
def history(ctx, rng):
    st, spec, ops = mission.run(ctx, rng, steps=10, queries=False)
    for _ in range(3):
        st.age(mission.step_time(rng, spec)*u.day)
    ctx.key(spec, ops)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('steps', steps, 1200, 30000), ('collections', collections, 150, 3000), ('history', history, 50, 800)]
