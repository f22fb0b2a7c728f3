"""Every flare that contributes to a window is found, and only visible ones count."""
import numpy as np
from astropy import units as u
from vspec_vsm.flares import FlareCollection

from vsm import gen, ref
from vsm.props import c17

RULE = ('collections of 0 to 250 flares (in any order, with mixed units) and windows before, inside, across and after them, '
        'many placed so that a chosen flare only just reaches the window with its rise or its tail; the selection, the '
        'visible subset and the integrals are compared with an independent account of every flare; the same '
        'through a star, and over several observations of one star. Distinct: a different collection, window '
        'or viewpoint; non-trivial: at least one flare in the collection.')
NEED = {'selections judged': 400, 'contributing flares judged': 2000, 'flares reaching the window by rise or tail only': 300,
        'flares outside judged': 500, 'visible flares judged': 800, 'hidden flares judged': 800,
        'integral entries judged': 600, 'empty collections judged': 10, 'star-level windows judged': 60,
        'observations replaced': 40, 'questions differing in one respect': 400, 'flares near the limb judged': 100}
ASSUMPTIONS = ['flares within 1e-7 FWHM of the documented ends, or within 1e-9 of the limb in cos(angle), may go either way',
               'between the support of a flare and the documented 10 FWHM before its peak, inclusion is free']


def near_limb(rng, la, lo):
    """a point very close to 90 degrees from (la, lo), in degrees"""
    a, b = np.radians(la), np.radians(lo)
    v = ref.vec(a, b)
    w = rng.normal(size=3)
    w -= w@v*v
    w /= np.linalg.norm(w)
    eps = float(gen.pick(rng, [-1, 1]))*gen.loguni(rng, 1e-6, .1)
    p = np.cos(eps)*w+np.sin(eps)*v
    return float(np.degrees(np.arcsin(np.clip(p[2], -1, 1)))), float(np.degrees(np.arctan2(p[1], p[0])))


def case(rng, n=None, since=0.):
    n = int(gen.pick(rng, [1, 1, 2, 5, 20, 60, 1, 2, 5, 20, 60, 250])) if n is None else n
    span = gen.loguni(rng, .3, 30)
    la, lo = gen.lat(rng), gen.lon(rng)
    specs = []
    for _ in range(n):
        s = gen.flare_spec(rng, span, since)
        if rng.random() < .2:
            s['lat'], s['lon'] = near_limb(rng, la, lo)
        specs.append(s)
    k = rng.random()
    t0 = since+float(rng.uniform(-.2*span, 1.2*span))
    dt = gen.loguni(rng, .005, 2)*(.3*span if k < .5 else 1)
    if rng.random() < .08:         # a long season
        dt = float(rng.uniform(30, 150))
    if specs and k > .4:
        # a window a chosen flare only just touches, or only just misses
        s = gen.pick(rng, specs)
        e = gen.loguni(rng, 1e-5, .5)*s['fwhm']*float(gen.pick(rng, [-1, 1]))
        m = rng.random()
        if m < .3:
            t0 = s['tpeak']+20*s['fwhm']-e
        elif m < .6:
            t0 = s['tpeak']-s['fwhm']-dt+e
        elif m < .7:
            t0 = s['tpeak']-10*s['fwhm']-dt+e
        else:
            t0 = s['tpeak']+float(rng.uniform(-1, 20))*s['fwhm']-(dt if rng.random() < .5 else 0)
    return specs, t0, t0+dt, la, lo


def want(specs, t0, t1, la, lo):
    """per flare: contributing / outside / free, and visible / hidden / limb"""
    out = []
    for s in specs:
        lo_sup, hi_sup = s['tpeak']-s['fwhm'], s['tpeak']+20*s['fwhm']
        eps = 1e-7*s['fwhm']+1e-9
        if hi_sup > t0+eps and lo_sup < t1-eps:
            w = 'in'
        elif s['tpeak']+20*s['fwhm'] < t0-eps or s['tpeak']-10*s['fwhm'] > t1+eps:
            w = 'out'
        else:
            w = 'free'
        m = float(ref.mu(np.radians(s['lat']), np.radians(s['lon']), np.radians(la), np.radians(lo)))
        out.append((w, 'limb' if abs(m) < 1e-9 else 'seen' if m > 0 else 'hidden'))
    return out


def sublist(ctx, flares, got, what):
    """indices of `got` in `flares`, in order"""
    pos, idx = 0, []
    for g in got:
        while pos < len(flares) and flares[pos] is not g:
            pos += 1
        ctx.ok(pos < len(flares), f'{what} is not a sub-list of the collection in its order')
        idx.append(pos)
        pos += 1
    return set(idx)


def judge(ctx, coll, flares, specs, t0, t1, la, lo, q):
    w = want(specs, t0, t1, la, lo)
    a, b, o = q(t0, 'time'), q(t1, 'time'), gen.obs(la, lo, q)
    sel = sublist(ctx, flares, coll.get_flares_in_timeperiod(a, b), 'the selection')
    for i, (time, _) in enumerate(w):
        info = dict(flare=specs[i], window=(t0, t1))
        if time == 'in':
            ctx.ok(i in sel, 'a flare with area in the window is not selected', **info)
            ctx.event('contributing flares judged')
            if not t0 <= specs[i]['tpeak'] <= t1:
                ctx.event('flares reaching the window by rise or tail only')
        elif time == 'out':
            ctx.ok(i not in sel, 'a flare far outside the window is selected', **info)
            ctx.event('flares outside judged')
    ctx.event('selections judged')
    mask = np.asarray(coll.mask(a, b))
    ctx.ok(mask.shape == (len(specs),) and mask.dtype == bool, f'mask of shape {mask.shape}, dtype {mask.dtype}')
    ctx.ok(set(np.flatnonzero(mask).tolist()) == sel, 'mask and selection differ')
    vis = sublist(ctx, flares, coll.get_visible_flares_in_timeperiod(a, b, o), 'the visible list')
    ctx.ok(vis <= sel, 'a visible flare is not among the selected')
    for i in sel:
        info = dict(flare=specs[i], observer=(la, lo))
        if w[i][1] == 'seen':
            ctx.ok(i in vis, 'a flare on the visible side is not reported', **info)
            ctx.event('visible flares judged')
        elif w[i][1] == 'hidden':
            ctx.ok(i not in vis, 'a flare behind the star is reported as visible', **info)
            ctx.event('hidden flares judged')
        m = ref.mu(np.radians(specs[i]['lat']), np.radians(specs[i]['lon']), np.radians(la), np.radians(lo))
        if 1e-9 <= abs(m) < .05:
            ctx.event('flares near the limb judged')
    r = coll.get_flare_integral_in_timeperiod(a, b, o)
    judge_integral(ctx, r, vis, specs, t0, t1)
    return sel, vis


def judge_integral(ctx, r, vis, specs, t0, t1):
    ctx.ok(len(r) == len(vis), f'{len(r)} entries for {len(vis)} visible flares')
    for e, i in zip(r, sorted(vis)):
        ctx.ok(set(e) == {'Teff', 'timearea'}, f'entry with {sorted(e)}')
        ctx.close(e['Teff'].to_value(u.K), specs[i]['teff'], 'temperature of a flare in the list', rtol=1e-9)
        c17.judge_window(ctx, specs[i], t0, t1, float(e['timearea'].to_value('km2 hr')))
        ctx.event('integral entries judged')


def collection(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    since = gen.epoch(rng)
    specs, t0, t1, la, lo = case(rng, since=since)
    flares = [gen.mk_flare(s, q) for s in specs]
    coll = FlareCollection(flares[0] if len(flares) == 1 and rng.random() < .5 else list(flares))
    for k in range(3):
        judge(ctx, coll, flares, specs, t0, t1, la, lo, q)
        ctx.key('c', specs[:2], t0, t1, la, lo)
        if specs:        # the next question differs from this one in a single respect
            la2, lo2 = near_limb(rng, specs[0]['lat'], specs[0]['lon'])
            for a, b, c, d in gen.some(rng, [(t0, t1, la2, lo), (t0, t1, la, lo2), (t0, t1, -la, lo), (t0, t1, la, lo+180.), (t0, t1+.5*(t1-t0), la, lo),
                                             (t0-2*(t1-t0), t1, la, lo)], 2):
                judge(ctx, coll, flares, specs, a, b, c, d, q)
                ctx.event('questions differing in one respect')
        _, t0, t1, la, lo = case(rng, 0, since)
        if k == 0 and len(specs) > 1:
            # a subset, re-indexed
            keep = rng.random(len(specs)) < .7
            specs = [s for s, m in zip(specs, keep) if m]
            flares = [f for f, m in zip(flares, keep) if m]
            coll.flares = list(flares)
            coll.index()
    # no viewpoint given: (0, 0)
    a, b = q(t0, 'time'), q(t1, 'time')
    vis = sublist(ctx, flares, coll.get_visible_flares_in_timeperiod(a, b), 'the visible list')
    w = want(specs, t0, t1, 0., 0.)
    for i, (time, side) in enumerate(w):
        if time == 'in' and side != 'limb':
            ctx.ok((i in vis) == (side == 'seen'), 'default viewpoint: wrong visibility', flare=specs[i])
    judge_integral(ctx, coll.get_flare_integral_in_timeperiod(a, b), vis, specs, t0, t1)
    ctx.sample(dict(n=len(specs), window=(t0, t1), observer=(la, lo)))


def empty(ctx, rng):
    q = gen.Units(rng)
    c = FlareCollection([])
    t0 = float(rng.uniform(-1, 5))
    a, b, o = q(t0, 'time'), q(t0+gen.loguni(rng, .001, 10), 'time'), gen.obs(gen.lat(rng), gen.lon(rng))
    ctx.ok(list(c.get_flares_in_timeperiod(a, b)) == [], 'flares out of an empty collection')
    ctx.ok(list(c.get_visible_flares_in_timeperiod(a, b, o)) == [], 'flares out of an empty collection')
    ctx.ok(list(c.get_flare_integral_in_timeperiod(a, b, o)) == [], 'flares out of an empty collection')
    ctx.event('empty collections judged')


def flare_state(f):
    return dict(fwhm=float(f.fwhm.to_value(u.day)), energy=float(f.energy.to_value(u.erg)),
                lat=float(f.lat.to_value(u.deg)), lon=float(f.lon.to_value(u.deg)),
                teff=float(f.Teff.to_value(u.K)), tpeak=float(f.tpeak.to_value(u.day)))


def star_level(ctx, rng):
    """several observations through one star; a clone of the generator tells what each must hold"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    g = gen.flaregen_spec(rng, rate=gen.loguni(rng, .3, 10))
    seed = int(rng.integers(1 << 30))
    spec = gen.star(rng, nspots=0, nfac=0)
    spec['grid'] = 100
    st = gen.mk_star(spec, q, flare_generator=gen.mk_flaregen(g, np.random.default_rng(seed), q))
    twin = gen.mk_flaregen(g, np.random.default_rng(seed), q)
    prev = None
    for _ in range(int(rng.integers(2, 5))):
        dur = float(rng.uniform(.2, 5))
        st.get_flares_over_observation(q(dur, 'time'))
        expected = twin.generate_flare_series(q(dur, 'time'))
        flares = list(st.flares.flares)
        ctx.ok(len(flares) == len(expected), f'the star holds {len(flares)} flares after an observation with {len(expected)}')
        specs = [flare_state(f) for f in flares]
        for s, f in zip(specs, expected):
            x = flare_state(f)
            for k in s:
                ctx.close(s[k], x[k], f'{k} of a flare after a new observation', rtol=1e-6)
        if prev is not None:
            ctx.ok(not set(map(id, prev)) & set(map(id, flares)), 'flares of the previous observation are still there')
            ctx.event('observations replaced')
        prev = flares
        for _ in range(2):
            la, lo = gen.lat(rng), gen.lon(rng)
            if specs and rng.random() < .8:
                s = gen.pick(rng, specs)
                t0 = s['tpeak']-float(rng.uniform(-5, 3))*s['fwhm']
            else:
                t0 = float(rng.uniform(0, dur))
            t1 = t0+gen.loguni(rng, .01, 2)
            _, vis = judge(ctx, st.flares, flares, specs, t0, t1, la, lo, q)
            r = st.get_flare_int_over_timeperiod(q(t0, 'time'), q(t1, 'time'), gen.obs(la, lo, q))
            judge_integral(ctx, r, vis, specs, t0, t1)
            ctx.event('star-level windows judged')
        if flares:
            ctx.key('star', seed, dur)
    st.age(q(1., 'time'))


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('collection', collection, 220, 8000), ('empty', empty, 20, 100), ('star', star_level, 60, 2000)]
