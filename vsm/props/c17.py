"""A flare radiates its energy, no more and no less."""
import numpy as np
from astropy import units as u
from vspec_vsm import xoflares
from vspec_vsm.flares import FlareCollection

from vsm import gen, ref

RULE = ('flares with FWHM from 36 seconds to 4 days, energies over nineteen decades and peak times up to years before and after zero, sampled densely, sparsely, at the peak, '
        'across both ends of the support and far outside; the curve is compared with an independent template, the '
        'energy with its integral, window time-areas with the exact integral and with 10-minute sampling, adjacent '
        'windows with their union, multi-flare curves with the sum, and exposure averages with the mean over the '
        'exposure. Distinct: a different flare or window; non-trivial: the curve is non-zero somewhere.')
NEED = {'coarse exposures judged': 30, 'short exposures judged': 40, 'curve points judged': 20000, 'rising points judged': 1500, 'points outside the support judged': 1500,
        'energies judged': 100, 'windows judged': 400, 'short windows judged': 60, 'adjacent windows judged': 60,
        'superpositions judged': 60, 'exposure averages judged': 60}
ASSUMPTIONS = ['points within 1e-7 FWHM of the ends of the support may be on either side']


def flare(rng):
    q = gen.Units(rng) if rng.random() < .4 else gen.CANONICAL
    s = gen.flare_spec(rng, since=gen.epoch(rng))
    return s, gen.mk_flare(s, q), q


def km2(x):
    return np.asarray(x.to_value(u.km**2), float)


def curve(ctx, rng):
    s, f, q = flare(rng)
    peak = ref.flare_peak_area_km2(s['energy'], s['teff'], s['fwhm'])
    ctx.close(km2(f.calc_peak_area()), peak, 'peak area', rtol=1e-8)
    x = np.concatenate([rng.uniform(-1.5, 25, 120), rng.uniform(-1.02, .3, 60), [-1.0001, -.9999, 0., 19.999, 20.001, 1e-9, -1e-9, 500., -500.]])
    x = np.sort(x[(np.abs(x+1) > 1e-7) & (np.abs(x-20) > 1e-7)])
    t = s['tpeak']+x*s['fwhm']
    xx = (t-s['tpeak'])/s['fwhm']
    a = km2(f.areacurve(q(t, 'time')))
    want = ref.template(xx)*peak
    # the template steps by 0.8 % at the peak: rounding decides the side
    near0 = np.abs(xx) < 1e-6
    mix = rng.permutation(np.flatnonzero(~near0))      # samples do not depend on each other
    ctx.close(km2(f.areacurve(q(t, 'time')[mix])), a[mix], 'the same times in another order', rtol=1e-9, atol=1e-9*peak, flare=s)
    one = int(mix[0])
    ctx.close(km2(f.areacurve(q(t, 'time')[one:one+1])), a[one:one+1], 'one time alone', rtol=1e-9, atol=1e-9*peak, flare=s)
    ctx.ok(a.shape == t.shape, f'curve of shape {a.shape} for times of shape {t.shape}')
    bad = np.abs(a-want) > 1e-6*peak
    bad &= ~(near0 & (a >= .99*peak) & (a <= peak*(1+1e-6)))
    ctx.ok(not bad.any(), f'area at (t-tpeak)/fwhm={xx[np.argmax(bad)]!r} is {a[np.argmax(bad)]!r} km2 instead of {want[np.argmax(bad)]!r}', flare=s)
    ctx.ok(np.all(a >= 0), f'negative flare area {a.min()!r}', flare=s)
    ctx.ok(np.all(a <= peak*(1+1e-9)), 'flare area above the peak area', flare=s)
    out = (xx < -1) | (xx > 20)
    ctx.ok(np.all(a[out] == 0), 'flare area outside its support', flare=s)
    at = km2(f.areacurve(f.tpeak.reshape(1)))
    ctx.close(at, [peak], 'area at the peak time', rtol=1e-8)
    ctx.event('curve points judged', t.size)
    ctx.event('rising points judged', int(np.sum((xx > -1) & (xx < 0))))
    ctx.event('points outside the support judged', int(out.sum()))
    ctx.key(s)
    ctx.sample(s)


def energy(ctx, rng):
    s, f, q = flare(rng)
    x = np.concatenate([np.linspace(-1.2, 0, 4001), np.linspace(1e-9, 20.2, 30001)])
    t = s['tpeak']+x*s['fwhm']
    a = km2(f.areacurve(q(t, 'time')))
    total = np.sum(.5*(a[1:]+a[:-1])*np.diff(t))*86400*1e6          # m2 s
    e = total*ref.SIGMA_SB*s['teff']**4*1e7
    ctx.ok(abs(e/s['energy']-1) < 2e-3, f'the flare radiates {e:.5e} erg, its energy is {s["energy"]:.5e}', flare=s)
    ta = float(f.get_timearea(q(t, 'time')).to_value('km2 s'))*1e6
    ctx.ok(abs(ta/total-1) < 1e-6, f'time-area {ta!r} m2 s, the integral of the curve is {total!r}', flare=s)
    # the whole flare through the collection; long flares are sampled well
    if s['fwhm'] > 2/24:
        c = FlareCollection([f])
        r = c.get_flare_integral_in_timeperiod(q(s['tpeak']-1.5*s['fwhm'], 'time'), q(s['tpeak']+21*s['fwhm'], 'time'),
                                               gen.obs(s['lat'], s['lon'], q))
        ctx.ok(len(r) == 1, f'{len(r)} flares reported instead of 1')
        e2 = float(r[0]['timearea'].to_value(u.m**2*u.s))*ref.SIGMA_SB*s['teff']**4*1e7
        ctx.ok(abs(e2/s['energy']-1) < 1.5e-2, f'the collection reports {e2:.5e} erg, the flare energy is {s["energy"]:.5e}', flare=s)
    ctx.event('energies judged')
    ctx.key('e', s)


def window_bounds(s, t0, t1):
    """exact time-area (km2 hr) and what trapezoids at about 10 minutes give"""
    peak = ref.flare_peak_area_km2(s['energy'], s['teff'], s['fwhm'])
    exact = float(ref.template_cum((t1-s['tpeak'])/s['fwhm'])-ref.template_cum((t0-s['tpeak'])/s['fwhm']))*peak*s['fwhm']*24
    n = int((t1-t0)*144+1e-9)
    sampled = []
    for k in (n-1, n, n+1, n+2):
        t = np.linspace(t0, t1, max(2, k))
        a = ref.template((t-s['tpeak'])/s['fwhm'])*peak
        sampled.append(float(np.sum(.5*(a[1:]+a[:-1])*np.diff(t))*24))
    # a sample exactly on an end of the support, or at the peak, may go either way
    step = (t1-t0)/max(1, n-1)*24
    return exact, sampled, peak, step


def judge_window(ctx, s, t0, t1, got, what='window'):
    exact, sampled, peak, step = window_bounds(s, t0, t1)
    tol = 1e-6*abs(exact)+2e-8*peak*(t1-t0+s['fwhm'])*24
    errs = [abs(got-v) for v in sampled]
    # a denser or exact integral is as good
    worst = max(abs(v-exact) for v in sampled)
    ok = min(errs) <= tol or abs(got-exact) <= min(worst, .01*abs(exact))+tol
    ctx.ok(ok, f'{what} of {(t1-t0)*24:.4f} h: time-area {got!r} km2 hr, the integral of the curve is {exact!r} '
           f'({sampled[1]!r} at 10 minute sampling)', flare=s, window=(t0, t1))
    return exact


def ask(f, s, t0, t1, q):
    c = FlareCollection([f])
    r = c.get_flare_integral_in_timeperiod(q(t0, 'time'), q(t1, 'time'), gen.obs(s['lat'], s['lon'], q))
    return float(r[0]['timearea'].to_value('km2 hr')) if r else None


def windows(ctx, rng):
    s, f, q = flare(rng)
    for _ in range(6):
        k = rng.random()
        short = k < .3
        dt = float(rng.uniform(.2, 29)/1440) if short else float(rng.uniform(.02, 3)) if k < .9 else gen.loguni(rng, 3, 120)
        if not short:
            n = dt*144
            if abs(n-round(n)) < 1e-3:
                dt += .0017
        x0 = float(rng.uniform(-2, 12))
        t0 = s['tpeak']+x0*s['fwhm']-(dt/2 if rng.random() < .5 else 0)
        t1 = t0+dt
        got = ask(f, s, t0, t1, q)
        exact = window_bounds(s, t0, t1)[0]
        if got is None:
            ctx.ok(exact <= 0, 'a flare with area in the window is not reported', flare=s, window=(t0, t1))
            continue
        judge_window(ctx, s, t0, t1, got)
        ctx.event('windows judged')
        if short:
            ctx.event('short windows judged')
        if exact > 0:
            ctx.key('w', s, t0, t1)


def adjacent(ctx, rng):
    s, f, q = flare(rng)
    s['fwhm'] = float(rng.uniform(2, 12)/24)
    f = gen.mk_flare(s, q)
    n = int(rng.integers(2, 6))
    cuts = np.sort(rng.uniform(-1.2, 14, n+1))*s['fwhm']+s['tpeak']
    parts = [ask(f, s, a, b, q) or 0. for a, b in zip(cuts[:-1], cuts[1:])]
    whole = ask(f, s, cuts[0], cuts[-1], q)
    peak = ref.flare_peak_area_km2(s['energy'], s['teff'], s['fwhm'])
    exact = float(ref.template_cum((cuts[-1]-s['tpeak'])/s['fwhm'])-ref.template_cum((cuts[0]-s['tpeak'])/s['fwhm']))*peak*s['fwhm']*24
    # 10-20 minute trapezoids on a flare of hours, and one sample step at each end of the rise
    tol = .03*peak*.33*(n+1)
    ctx.ok(abs(sum(parts)-whole) <= tol, f'windows add up to {sum(parts)!r}, their union has {whole!r} (bound {tol:.3g})', flare=s, cuts=cuts)
    ctx.ok(abs(whole-exact) <= tol, f'union {whole!r}, exact {exact!r}', flare=s)
    ctx.event('adjacent windows judged')
    ctx.key('a', s)


def superposition(ctx, rng):
    n = int(rng.integers(1, 6)) if rng.random() < .7 else int(rng.integers(6, 60))
    t = np.sort(rng.uniform(0, 5, 60))
    tp, fw, am = rng.uniform(0, 5, n), 10**rng.uniform(-2, 0, n), 10**rng.uniform(-1, 3, n)
    want = sum(ref.template((t-a)/b)*c for a, b, c in zip(tp, fw, am))
    got = xoflares.get_light_curvenp(t, tp, fw, am)
    ctx.close(got, want, 'light curve of several flares', rtol=1e-9, atol=1e-9*am.max())
    ctx.close(xoflares.multiflaremodelnp(t, tp, fw, am), want, 'multi-flare model', rtol=1e-9, atol=1e-9*am.max())
    one = sum(xoflares.get_light_curvenp(t, tp[i], fw[i], am[i]) for i in range(n))
    ctx.close(one, got, 'sum of single light curves', rtol=1e-9, atol=1e-9*am.max())
    ctx.close(xoflares._flareintegralnp(fw[0], am[0]) if hasattr(xoflares, '_flareintegralnp') else ref.TEMPLATE_TOTAL*fw[0]*am[0],
              ref.TEMPLATE_TOTAL*fw[0]*am[0], 'closed-form flare integral', rtol=1e-9)
    ctx.event('superpositions judged')
    # exposure times
    texp = float(gen.pick(rng, [.001, .02, .2, 1.]))
    over = int(gen.pick(rng, [1, 2, 3, 4, 5, 7, 15, 51, 8]))
    eff = over + 1-over % 2
    avg = xoflares.get_light_curvenp(t, tp, fw, am, texp=texp, oversample=over)
    ctx.ok(np.shape(avg) == t.shape, f'exposure curve of shape {np.shape(avg)}')

    def mean(tt):
        lo, hi = tt-texp/2, tt+texp/2
        m = sum(c*b*float(ref.template_cum((hi-a)/b)-ref.template_cum((lo-a)/b)) for a, b, c in zip(tp, fw, am))/texp
        fine = np.linspace(lo, hi, 401)
        v = sum(ref.template((fine-a)/b)*c for a, b, c in zip(tp, fw, am))
        return m, np.abs(np.diff(v)).sum()+.02*am.sum()*np.any(v > 0)
    for i in rng.integers(0, len(t), 8):
        m, tv = mean(t[i])
        tol = tv/eff*1.3+1e-9*am.max()
        # a peak narrower than the fine grid: its whole height is the variation
        tol += sum(2*c for a, b, c in zip(tp, fw, am) if b < texp/50 and abs(a-t[i]) < texp/2+21*b)/eff
        ctx.ok(abs(avg[i]-m) <= tol, f'exposure of {texp} d at {t[i]:.4f}: {avg[i]!r}, the mean of the curve is {m!r} (bound {tol:.2g})',
               tpeaks=tp, fwhms=fw, ampls=am)
        ctx.event('exposure averages judged')
    # few samples per exposure still straddle it
    if over > 1:
        b, c = fw[0], am[0]
        wide = b*float(rng.uniform(.1, .3))
        x0 = np.concatenate([rng.uniform(-.7, -.3, 3), rng.uniform(.3, 3, 5)])
        k = int(gen.pick(rng, [2, 3, 4, 5]))
        got = xoflares.get_light_curvenp(tp[0]+x0*b, tp[0], b, c, texp=wide, oversample=k)
        e = wide/b
        lo_hi = np.array([ref.template(x0-e/2), ref.template(x0+e/2)])*c
        want = c*(ref.template_cum(x0+e/2)-ref.template_cum(x0-e/2))/e
        mid = ref.template(x0)*c
        # the sum over any symmetric set of samples lies between the middle value and the mean of the two ends
        ends = lo_hi.mean(axis=0)
        second = np.abs(ends-mid)
        ctx.ok(np.all(np.abs(got-want) <= .75*second+.1*c*e**4+1e-9*c), f'exposure of {e:.3f} FWHM in {k} samples: off by {np.max(np.abs(got-want)/second):.3g} of the bend of the curve', fwhm=b)
        near = second > 3e-3*c
        ctx.ok(np.all(np.abs(got-mid)[near] > .05*second[near]), f'an exposure of {e:.3f} FWHM in {k} samples is not averaged', fwhm=b)
        ctx.event('coarse exposures judged')
    # an exposure much shorter than the flare, on a smooth stretch of it: the mean is known to second order
    b, c = fw[0], am[0]
    short = float(b*gen.loguni(rng, .005, .03))
    x = np.concatenate([rng.uniform(-.9, -.1, 3), rng.uniform(.1, 4, 5)])
    v = xoflares.get_light_curvenp(tp[0]+x*b, tp[0], b, c, texp=short)
    e = short/b
    want = c*(ref.template_cum(x+e/2)-ref.template_cum(x-e/2))/e
    ctx.ok(np.all(np.abs(v-want) <= .3*c*e**2+1e-9*c), f'exposure of {e:.4f} FWHM: off by {np.abs(v-want).max()/c:.3g} of the peak '
           f'(bound {.3*e**2:.3g})', tpeak=tp[0], fwhm=b)
    ctx.event('short exposures judged')
    ctx.key('s', ctx.current[1])


SCALE = 4       # quick runs: a multiple of the counts below
WORKLOADS = [('curve', curve, 150, 5000), ('energy', energy, 120, 3000), ('windows', windows, 100, 3000),
             ('adjacent', adjacent, 80, 2000), ('superposition', superposition, 80, 2000)]
