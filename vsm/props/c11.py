"""A transiting planet occults exactly the elements behind its disk."""
import math

import numpy as np
from astropy import units as u

from vsm import gen, judges, mon, ref

RULE = ('random stars on both grid kinds, viewpoints including the poles and grid elements, and planets at random, '
        'grazing, central and far-side positions; every transit mask the package computes is compared, element by '
        'element, with an orthographic projection of the planet disk. On fine grids the occulted share of the disk '
        'is compared with the area common to both disks. Distinct: a different (grid, viewpoint, planet); '
        'non-trivial: the planet overlaps the disk.')
NEED = {'near-side masks judged': 300, 'elements well inside the planet judged': 3000,
        'elements well outside the planet judged': 30000, 'far-side masks judged': 60, 'overlap areas judged': 40,
        'overlap areas over a pole judged': 6, 'disks apart judged': 4, 'planets larger than the star judged': 30, 'small planets in front of an element judged': 20, 'small planets averaged': 20, 'occulted coverage judged': 40}
ASSUMPTIONS = ['phases within 1e-12 of quadrature may count as either side']
TABLE = {'Star.get_transit_mask': judges.transit_mask}


def bare(rng, grid, radius=None):
    u1, u2 = gen.limbdark(rng)
    return dict(teff=3000., radius=radius or float(gen.loguni(rng, .1, 2)*ref.RSUN_KM), period=10., grid=grid, u1=u1,
                u2=u2, spots=[], faculae=[], gran=None)


def viewpoint(rng, st):
    k = rng.random()
    if k < .2:
        return float(gen.pick(rng, [90., -90.])), gen.lon(rng)
    if k < .35:
        la, lo = st.gridmaker.grid()
        i = int(rng.integers(la.size))
        return float(la.to_value(u.deg).ravel()[i]), float(lo.to_value(u.deg).ravel()[i])
    return gen.lat(rng), gen.lon(rng)


@mon.monitored(TABLE)
def masks(ctx, rng):
    spec = bare(rng, gen.grid(rng))
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    st = gen.mk_star(spec, q)
    for _ in range(4):
        la, lo = viewpoint(rng, st)
        p = gen.planet(rng, spec['radius'])
        if rng.random() < .12:
            p['phase'] += 360*int(gen.pick(rng, [-30, -8, 3, 5, 12, 100]))
        if rng.random() < .1:         # a small planet right in front of an element
            p.update(over_element(rng, st, la, lo, spec['radius']))
            ctx.event('small planets in front of an element judged')
        if rng.random() < .15:        # a planet larger than its star, on the near side
            p.update(place(rng, spec['radius'], 'graze', gen.loguni(rng, 1, 12))[0])
            ctx.event('planets larger than the star judged')
        o = gen.obs(la, lo, q)
        mask, _ = st.get_transit_mask(o['lat'], o['lon'], **gen.mask_kw(p, q))
        if np.max(np.asarray(mask, float)) > 0:
            ctx.key(spec['grid'], la, lo, p)
        ctx.sample(dict(grid=spec['grid'], view=(la, lo), planet=p, occulted=float(np.sum(mask))))


def over_element(rng, st, la, lo, R):
    """a planet of at most 2 % of the star, its center in front of some visible element"""
    ga, go = (x.to_value(u.rad).ravel() for x in st.gridmaker.grid())
    v = ref.vec(ga, go)
    a, o = math.radians(la), math.radians(lo)
    north = ref.vec(a+math.pi/2, o)
    front = ref.vec(a, o)
    east = np.cross(north, front)
    i = gen.pick(rng, np.flatnonzero(v@front > .05).tolist() or [0])
    x, y = float(v[i]@east), float(v[i]@north)
    d = gen.loguni(rng, 1.5, 2000)
    # the orbit is right- or left-handed: try both, and both signs of the inclination
    best = min((dict(a=d*R, rp=gen.loguni(rng, .002, .02)*R, phase=180+math.degrees(math.asin(s*x/d)),
                     inc=math.degrees(math.acos(max(-1., min(1., t*y/d/math.cos(math.asin(x/d))))))) for s in (1, -1) for t in (1, -1)),
               key=lambda p: math.dist(judges.planet_xy(1., p['a']/R, math.radians(p['phase']), math.radians(p['inc'])), (x, y)))
    return best


def place(rng, R, kind, rp=None):
    """a near-side planet whose disk has a wanted distance from disk center"""
    rp = rp or float(gen.pick(rng, [0.1, 0.15, 0.25, 0.5, 0.9, 0.99, 1., 1.3, 2.5]))
    d = dict(inside=float(rng.uniform(0, max(0, 1-rp))), graze=float(rng.uniform(abs(1-rp), 1+rp)),
             apart=1+rp*float(rng.uniform(1.02, 3)) + 0.03)[kind]
    t = float(rng.uniform(0, 2*np.pi))
    x, y = d*math.cos(t), d*math.sin(t)
    a = float(gen.loguni(rng, max(1.1, d*1.02), 40)) if rng.random() < .8 else gen.loguni(rng, 40, 5000)
    ph = math.asin(x/a)
    c = y/(a*math.cos(ph))
    if abs(c) > 1:
        c = math.copysign(1, c)
    p = dict(a=a*R, rp=rp*R, phase=180+math.degrees(ph)+float(gen.pick(rng, [0, 360, -360])), inc=math.degrees(math.acos(c)))
    return p, rp, math.hypot(*judges.planet_xy(1., a, math.radians(p['phase']), math.radians(p['inc'])))


@mon.monitored(TABLE)
def overlap(ctx, rng):
    grid = int(rng.integers(8000, 14000)) if rng.random() < .6 else (int(rng.integers(70, 100)), int(rng.integers(140, 200)))
    spec = bare(rng, grid)
    st = gen.mk_star(spec)
    lat0 = float(gen.pick(rng, [90., -90.])) if rng.random() < .25 else gen.lat(rng)
    lon0 = gen.lon(rng)
    kind = gen.pick(rng, ['inside', 'inside', 'graze', 'apart'])
    p, rp, d = place(rng, spec['radius'], kind)
    o = gen.obs(lat0, lon0)
    mask, _ = st.get_transit_mask(o['lat'], o['lon'], **gen.mask_kw(p))
    mask = np.asarray(mask, float)
    la, lo = judges.grid_of(st)
    w = ref.weights(la)*np.clip(ref.mu(la, lo, math.radians(lat0), math.radians(lon0)), 0, None)
    got = float((w*mask).sum()/w.sum())
    want = ref.lens(d, rp)/math.pi
    px = 2*math.sqrt(1/la.size) if isinstance(grid, int) else max(np.pi/(grid[0]-1), 2*np.pi/grid[1])
    ctx.event('overlap areas judged')
    if abs(lat0) == 90:
        ctx.event('overlap areas over a pole judged')
    tag = 'spiral' if isinstance(grid, int) else 'rect'
    err = abs(got-want)/(rp*px)
    ctx.margin(f'{tag} occulted share error/(planet radius x resolution)', err)
    bound = BOUND[tag]*rp*px
    ctx.ok(abs(got-want) <= bound, f'occulted share {got:.6f}, the disks overlap over {want:.6f} (bound {bound:.2g})',
           grid=grid, view=(lat0, lon0), planet=p, d=d, rp=rp)
    if d > 1+rp+2*px:
        ctx.ok(got <= 1e-9, f'disks apart (distance {d:.4f}, radius {rp:.4f}) but {got!r} occulted')
        ctx.event('disks apart judged')
    # the coverage report without limb darkening says the same
    st.u1 = st.u2 = 0.
    _, cov, _ = st.calc_coverage(o, **gen.planet_kw(p))
    tot = float(sum(cov.values()))
    ctx.ok(abs(tot-want) <= bound, f'coverage reports {tot:.6f} occulted, the disks overlap over {want:.6f}', planet=p)
    ctx.event('occulted coverage judged')
    ctx.key(grid, lat0, lon0, p)


BOUND = dict(spiral=0.8, rect=0.5)


@mon.monitored(TABLE)
def passage(ctx, rng):
    """a planet crossing the disk: same phase from any winding, symmetric in time, zero outside"""
    spec = bare(rng, gen.grid(rng))
    st = gen.mk_star(spec)
    R = spec['radius']
    lat0, lon0 = viewpoint(rng, st)
    o = gen.obs(lat0, lon0)
    rp, a = float(rng.uniform(.05, .5)), float(gen.loguni(rng, 1.5, 30))
    inc = math.degrees(math.acos(np.clip(rng.uniform(-1, 1)/a, -1, 1)))
    half = math.degrees(math.asin(min(1, (1+rp)/a)))
    for ph in np.linspace(-1.5, 1.5, 13)*half:
        kw = gen.mask_kw(dict(a=a*R, rp=rp*R, phase=180+ph, inc=inc))
        m1, _ = st.get_transit_mask(o['lat'], o['lon'], **kw)
        kw['phase'] = kw['phase']+360*u.deg
        m2, _ = st.get_transit_mask(o['lat'], o['lon'], **kw)
        # elements at an edge may be smeared slightly differently after rounding
        ctx.ok(np.max(np.abs(np.asarray(m1, float)-np.asarray(m2, float))) < 0.05, 'mask changes when 360 degrees are added to the phase')
    ctx.key(spec['grid'], rp, a, inc)


@mon.monitored(TABLE)
def small(ctx, rng):
    """a planet smaller than an element still dims the star about right, averaged over where it is"""
    grid = int(gen.loguni(rng, 300, 8000)) if rng.random() < .6 else (int(rng.integers(20, 80)), int(rng.integers(40, 160)))
    spec = bare(rng, grid)
    st = gen.mk_star(spec)
    rp = gen.loguni(rng, .003, .05)
    lat0, lon0 = (float(gen.pick(rng, [90., -90.])) if rng.random() < .2 else gen.lat(rng)), gen.lon(rng)
    o = gen.obs(lat0, lon0)
    la, lo = judges.grid_of(st)
    w = ref.weights(la)*np.clip(ref.mu(la, lo, math.radians(lat0), math.radians(lon0)), 0, None)
    share = []
    for _ in range(60):
        p = place(rng, spec['radius'], 'inside', rp)[0]
        share.append(float((w*np.asarray(st.get_transit_mask(o['lat'], o['lon'], **gen.mask_kw(p))[0], float)).sum()/w.sum())/rp**2)
    m, e = np.mean(share), np.std(share)/math.sqrt(60)
    ctx.margin('mean occulted share of a small planet over its area', m)
    ctx.ok(.55-6*e < m < 1.1+6*e, f'a planet of {rp:.4f} stellar radii occults {m:.3f}+-{e:.3f} times its area on average', grid=grid, view=(lat0, lon0))
    ctx.event('small planets averaged')
    ctx.key('small', grid, lat0, lon0, rp)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('masks', masks, 120, 2500), ('overlap', overlap, 56, 800), ('passage', passage, 24, 400), ('small', small, 8, 200)]
