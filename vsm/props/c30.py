"""Answers that are too coarse or were limited are announced."""
import re
import warnings

import numpy as np
from astropy import units as u
from vspec_vsm import helpers
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.star import InsufficientResolutionWarning

from vsm import gen, judges, ref

RULE = ('random stars on coarse and fine grids with planets of any size in front of, beside and behind them, many tuned so that the '
        'elements next to the planet have a mean projected radius a little above or below half its radius; the '
        'resolution warnings of each call, and the factor they name, are compared with an independent projection. Faculae and '
        'temperatures around both limits: the warnings are compared with the temperatures that had to be limited. Grids of '
        'both kinds are compared. Each question is asked twice. Distinct: a different question; non-trivial: an answer that had to be announced.')
NEED = {'transits judged': 600, 'coarse transits announced': 150, 'fine transits quiet': 100, 'planets beside or behind quiet': 60,
        'factors judged': 150, 'transits close to the threshold judged': 100, 'limited temperatures judged': 400, 'temperatures within the limits judged': 400,
        'facula maps judged': 150, 'facula maps with limited temperatures': 40, 'facula maps without': 40, 'unlike grids judged': 60}
ASSUMPTIONS = ['a mean within 1e-9 of the threshold may go either way', 'elements within 0.012 stellar radii of the border of what the planet may touch may count or not']


def heard(fn):
    """the answer and the warnings a call gave"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = fn()
    return out, list(w)


def coarse(ws):
    return [w for w in ws if issubclass(w.category, InsufficientResolutionWarning)]


def limited(ws):
    return [w for w in ws if issubclass(w.category, RuntimeWarning) and 'clip' in str(w.message).lower()]


def mean_radius(grid, lat0, lon0, p, R):
    """(smallest, largest) mean projected radius of the elements the planet may touch; None: there are none"""
    la, lo = ref.spiral(grid) if isinstance(grid, int) else ref.rect(*grid)
    m = ref.mu(la, lo, lat0, lon0)
    x, y = ref.ortho(la, lo, lat0, lon0)
    x0, y0 = judges.planet_xy(R, p['a'], np.radians(p['phase']), np.radians(p['inc']))
    rp = p['rp']/R
    pr = 2*np.sqrt(ref.weights(la))*m
    gap = np.hypot(x-x0, y-y0)-rp-2*pr
    # the projection is documented to about 1e-2: elements that close to the border may count or not
    sure = (m > 1e-7) & (gap < -EPS)
    maybe = (m > -1e-7) & (gap < EPS) & ~sure
    vals = np.sort(pr[maybe].ravel())
    if not sure.any():
        return None, vals.size > 0
    ends = []
    for order in (vals, vals[::-1]):
        t, n = pr[sure].sum(), int(sure.sum())
        for x in order:
            if (x < t/n) == (order is vals):
                t, n = t+x, n+1
            else:
                break
        ends.append(t/n)
    return tuple(ends), False


EPS = .012


def transit(ctx, rng):
    grid = gen.grid(rng, bool(rng.random() < .5))
    R = float(gen.loguni(rng, .1, 2)*ref.RSUN_KM)
    q = gen.Units(rng) if rng.random() < .3 else gen.CANONICAL
    st = gen.mk_star(dict(teff=3000., radius=R, period=10., grid=grid, u1=.2, u2=.1, spots=[], faculae=[], gran=None), q)
    for _ in range(4):
        la, lo = gen.lat(rng), gen.lon(rng)
        p = gen.planet(rng, R)
        p['rp'] = float(R*(gen.loguni(rng, .01, .99) if rng.random() < .8 else gen.loguni(rng, 1e-4, 4)))
        if rng.random() < .7:
            p['phase'] = 180+float(rng.uniform(-.6, .6))*np.degrees(min(1., R/p['a']))
        if np.cos(np.radians(p['phase'])) > -1e-9:      # behind the star only planets smaller than it are served
            p['rp'] = min(p['rp'], .99*R)
        v = np.radians(la), np.radians(lo)
        tuned = False
        if rng.random() < .6 and np.cos(np.radians(p['phase'])) < 0:
            for _ in range(12):       # toward the threshold, then a little off it
                r, _m = mean_radius(grid, *v, p, R)
                if r is None:
                    break
                p['rp'] = float(np.clip(r[0]+r[1], .004, .99)*R)
                tuned = True
            p['rp'] = float(min(p['rp']*(1+gen.loguni(rng, 1e-5, .1)*float(gen.pick(rng, [-1, 1]))), .995*R))
        o = gen.obs(la, lo, q)
        whole = rng.random() < .3
        ask = (lambda: st.calc_coverage(o, **gen.planet_kw(p, q))) if whole else \
            (lambda: st.get_transit_mask(o['lat'], o['lon'], **gen.mask_kw(p, q)))
        c = np.cos(np.radians(p['phase']))
        rp = p['rp']/R
        d = np.hypot(*judges.planet_xy(R, p['a'], np.radians(p['phase']), np.radians(p['inc'])))
        if abs(c) < 1e-12 or abs(d-1-2*rp) < 1e-9:
            continue
        (_, w1), (_, w2) = heard(ask), heard(ask)
        info = dict(grid=grid, view=(la, lo), planet=p, radius=R, said=[str(w.message) for w in w1][:3])
        ctx.ok(len(coarse(w1)) == len(coarse(w2)), 'asked again, the same question is announced differently', **info)
        ctx.event('transits judged')
        if c > 0 or d > 1+2*rp:
            ctx.ok(not coarse(w1), 'a resolution warning for a planet that is not in front of the star', **info)
            ctx.event('planets beside or behind quiet')
            continue
        r, unsure = mean_radius(grid, *v, p, R)
        if r is None:
            if not unsure:
                ctx.ok(not coarse(w1), 'a resolution warning although the planet touches no element', **info)
            continue
        if r[0] > .5*rp+1e-9:
            ctx.ok(coarse(w1), f'elements of mean projected radius {r[0]:.5f} under a planet of radius {rp:.5f} are not announced', **info)
            ctx.event('coarse transits announced')
            f = [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', str(coarse(w1)[0].message))]
            lo_f, hi_f = (4*(x/rp)**2 for x in r)
            ctx.ok(any(lo_f-.0051-1e-6*lo_f <= x <= hi_f+.0051+1e-6*hi_f for x in f),
                   f'the warning does not name the missing factor {lo_f:.2f}', **info)
            ctx.event('factors judged')
            ctx.key(grid, la, lo, p)
        elif r[1] < .5*rp-1e-9:
            ctx.ok(not coarse(w1), f'elements of mean projected radius {r[1]:.5f} under a planet of radius {rp:.5f} are announced as too coarse', **info)
            ctx.event('fine transits quiet')
        if tuned and abs(r[0]/rp-.5) < .06 and (r[0] > .5*rp+1e-9 or r[1] < .5*rp-1e-9):
            ctx.event('transits close to the threshold judged')
    ctx.sample(dict(grid=grid, radius=R))


LOW, HIGH = 2300., 3900.


def said(ctx, ws, low, high, info):
    """low/high: whether some temperature had to be limited there"""
    txt = [str(w.message) for w in limited(ws)]
    for on, lim in ((low, '2300'), (high, '3900')):
        hit = [t for t in txt if lim in t]
        if on:
            ctx.ok(hit, f'a temperature was limited to {lim} K without a warning', said=txt, **info)
        else:
            ctx.ok(not hit, f'a warning names {lim} K although no temperature was limited to it', said=txt, **info)


def temperatures(ctx, rng):
    for _ in range(30):
        k = rng.random()
        t = float(rng.uniform(500, 6000)) if k < .4 else float(gen.pick(rng, [LOW, HIGH]))+gen.loguni(rng, 1e-6, 30)*float(gen.pick(rng, [-1, 1, 0]))
        x = t*u.K if rng.random() < .7 else (t/1000*u.kK)
        v = x.to_value(u.K)
        if v in (LOW, HIGH) and x.unit != u.K:
            continue
        (_, w1), (_, w2) = heard(lambda: helpers.clip_teff(x)), heard(lambda: helpers.clip_teff(x))
        ctx.ok(len(limited(w1)) == len(limited(w2)), f'{x} asked again is announced differently')
        # a message may name the temperature itself as well as the limit
        lo, hi = v < LOW, v > HIGH
        if lo or hi:
            ctx.ok(limited(w1), f'{x} is limited without a warning')
            ctx.ok(any(('3900' if hi else '2300') in str(w.message) for w in limited(w1)) or x.unit != u.K,
                   f'the warning for {x} names another limit', said=str(limited(w1)[0].message))
            ctx.event('limited temperatures judged')
            ctx.key(t)
        else:
            ctx.ok(not limited(w1), f'{x} is within the limits but announced as limited')
            ctx.event('temperatures within the limits judged')


def faculae(ctx, rng):
    spec = gen.star(rng, nspots=int(gen.pick(rng, [0, 2])), nfac=int(gen.pick(rng, [0, 1, 2, 4])))
    spec['teff'] = float(gen.pick(rng, [2300., 2400., 2600., 3000., 3300.25, 3600., 3800.5, 3900.]))
    if rng.random() < .5:
        for f in spec['faculae']:          # contrasts that just reach a limit, or just do not
            f.update(fslope=0., wslope=0., fmin=0.)
            f['wint'] = max(1., round(HIGH-spec['teff'])+float(gen.pick(rng, [-2, -1, 0, 1, 2, 40])))
            f['fbase'] = min(-1., round(LOW-spec['teff'])+float(gen.pick(rng, [-40, -2, -1, 0, 1, 2])))
    st = gen.mk_star(spec)
    la, lo = judges.grid_of(st)
    low = high = unsure = False
    for i, f in enumerate(spec['faculae']):
        d = ref.sep(la, lo, np.radians(f['lat']), np.radians(f['lon']))
        a = f['r']/spec['radius']
        if np.any(np.abs(d-a) < 1e-6):
            unsure = True
        if not np.any(d <= a):
            continue
        fac = st.faculae.faculae[i]
        for c in (fac.wall_dteff.to_value(u.K), fac.floor_dteff.to_value(u.K)):
            ts = [x+spec['teff'] for x in judges.rounded(c)]
            if min(ts) < LOW <= max(ts) or min(ts) <= HIGH < max(ts) or any(abs(x-b) < 1e-9 and x != b for x in ts for b in (LOW, HIGH)):
                unsure = True
            low |= max(ts) < LOW
            high |= min(ts) > HIGH
    for _ in range(2):
        v = gen.view(rng, spec)
        o = gen.obs(*v)
        whole = rng.random() < .4
        _, ws = heard((lambda: st.calc_coverage(o)) if whole else (lambda: st.add_faculae_to_map(o['lat'], o['lon'])))
        if unsure:
            continue
        info = dict(spec=spec, view=v)
        if low or high:
            said(ctx, ws, low, high, info) if not (low and high) else ctx.ok(len(limited(ws)) >= 2, 'limited temperatures without a warning', **info)
            ctx.event('facula maps with limited temperatures')
            ctx.key(spec, v)
        else:
            ctx.ok(not limited(ws), 'no temperature had to be limited, but a warning says so', said=[str(w.message) for w in ws][:3], **info)
            ctx.event('facula maps without')
        ctx.event('facula maps judged')


def grids(ctx, rng):
    for _ in range(6):
        n = int(rng.integers(4, 60))
        a, b = CoordinateGrid.new(n), CoordinateGrid.new((4, max(4, n//4)))
        if rng.random() < .5:
            a, b = b, a
        try:
            eq, ws = heard(lambda: a == b)
        except TypeError:               # a refusal is an announcement, too
            eq, ws = False, [1]
        ctx.ok(bool(eq) is False and len(ws) > 0, 'grids of different kinds are compared without a warning', grids=(str(a), str(b)))
        same, ws = heard(lambda: a == type(a)(*((a.n_points,) if hasattr(a, 'n_points') else (a.nlat, a.nlon))))
        ctx.ok(bool(same) and not ws, 'equal grids are announced')
        ctx.event('unlike grids judged')
        ctx.key('g', n)


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('transit', transit, 260, 5000), ('temperatures', temperatures, 60, 600), ('faculae', faculae, 220, 4000), ('grids', grids, 20, 100)]
