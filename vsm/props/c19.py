"""Generated flares follow the configured frequency distribution."""
import numpy as np
from astropy import units as u
from vspec_vsm.flares import FlareGenerator

from vsm import gen, ref
from vsm.props.c18 import flare_state

RULE = ('flare generators with random slopes, intercepts, minimum energies, mean FWHMs, spreads, cluster sizes and units: '
        'the rate, density, cumulative and quantile functions against the closed power law, and the flares of '
        'many generated series (thousands per configuration) against the configured distributions with 6.5-sigma and '
        'Kolmogorov bounds. Distinct: a different generator; non-trivial: flares were generated or functions evaluated.')
NEED = {'clusterings judged': 15, 'function points judged': 4000, 'series judged': 1500, 'flares sampled': 20000, 'counts judged': 8,
        'energy samples tested': 20, 'position samples tested': 20, 'peak sequences judged': 1500,
        'empty series seen': 20, 'density tests': 8,
        'tails tested': 30, 'count laws tested': 6, 'samples searched for repetitions': 200, 'lone flares': 2000,
        'storm flares': 2000}
ASSUMPTIONS = ['statistical bounds are 6.5 sigma or sqrt(n) D < 3.4 (p below 1e-9 each)',
               'clusters stretch the series by less than half of its duration, so the mean time of the last peak is '
               'between one and one and a half durations']
Z = 6.5
KS = 3.4


def uniform(ctx, x, what, **info):
    x = np.asarray(x, float)
    ctx.ok(np.all((x >= -1e-12) & (x <= 1+1e-12)), f'{what}: outside the range', **info)
    d = ref.ks(x, lambda v: np.clip(v, 0, 1))
    ctx.ok(d < KS, f'{what}: not the configured distribution (Kolmogorov sqrt(n) D = {d:.2f}, n = {len(x)})', **info)
    ctx.margin('kolmogorov: '+what, d)
    # nowhere a stretch without any value: P(gap > g) < (n+1)(1-g)^n
    n, gap = len(x), np.diff(np.concatenate([[0.], np.sort(np.clip(x, 0, 1)), [1.]])).max()
    ctx.ok(np.log(n+1)+n*np.log1p(-min(gap, 1-1e-15)) > np.log(1e-11),
           f'{what}: no value in {gap:.4f} of the range (n = {n})', **info)
    distinct(ctx, x, what, **info)


def distinct(ctx, x, what, **info):
    """a continuous quantity does not take the same value twice, nor depends on the one drawn before"""
    x = np.asarray(x, float)
    n, k = len(x), len(np.unique(x))
    ctx.ok(k == n, f'{what}: {n-k} of {n} values are repeated', **info)
    if n > 100:
        r = np.argsort(np.argsort(x))
        for lag in (1, 2):
            c = np.corrcoef(r[lag:], r[:-lag])[0, 1]*np.sqrt(n-lag-1)
            ctx.ok(abs(c) < Z, f'{what}: values {lag} apart are correlated ({c:.1f} sigma, n = {n})', **info)
    ctx.event('samples searched for repetitions')


def normal(ctx, x, what, **info):
    """x: standardized"""
    from scipy.stats import norm
    x = np.asarray(x, float)
    n = len(x)
    z = np.mean(x)*np.sqrt(n)
    v = (np.mean(x**2)-1)*np.sqrt(n/2)
    ctx.ok(abs(z) < Z, f'{what}: mean off by {z:.1f} sigma (n = {n})', **info)
    # kurtosis-free bound is fine for large n; small samples get slack
    ctx.ok(abs(v) < Z+20/np.sqrt(n), f'{what}: spread is {np.sqrt(np.mean(x**2)):.4f} times the configured one (n = {n})', **info)
    distinct(ctx, x, what, **info)
    d = ref.ks(x, norm.cdf)
    ctx.ok(d < KS, f'{what}: not normal about the mean (Kolmogorov sqrt(n) D = {d:.2f}, n = {n})', **info)


def tails(ctx, x, what, **info):
    """x: standardized, a large sample; the ends of the distribution are there"""
    from scipy.stats import norm
    x = np.asarray(x, float)
    n = len(x)
    for c in (-3., -2.5, -2., 2., 2.5, 3.):
        p = norm.cdf(-abs(c))
        k = np.sum(x < c) if c < 0 else np.sum(x > c)
        ctx.ok(abs(k-n*p) < Z*np.sqrt(n*p)+4, f'{what}: {k} of {n} beyond {c} sigma, expected {n*p:.0f}', **info)
    distinct(ctx, x, what, **info)
    ctx.event('tails tested')


def poisson_law(ctx, counts, lam, what, **info):
    """how often no, one, two ... events come: not only their mean"""
    from scipy.stats import poisson
    c = np.asarray(counts)
    n = len(c)
    for k in range(4):
        p = poisson.sf(k, lam)
        got = np.sum(c > k)
        ctx.ok(abs(got-n*p) < Z*np.sqrt(n*p*(1-p))+4, f'{what}: more than {k} in {got} of {n} cases, expected {n*p:.1f}', expected=lam, **info)
    ctx.event('count laws tested')


def independent(ctx, cols, what):
    """ranks of independent columns are uncorrelated"""
    names = list(cols)
    r = {k: np.argsort(np.argsort(cols[k])) for k in names}
    for i, a in enumerate(names):
        for b in names[:i]:
            n = len(r[a])
            c = np.corrcoef(r[a], r[b])[0, 1]
            ctx.ok(abs(c)*np.sqrt(n-1) < Z, f'{what}: {a} and {b} are correlated (rank correlation {c:.3f}, n = {n})')


def conditional(ctx, cols, what):
    """a large sample: what goes with an extreme value of one column is distributed like the rest"""
    from scipy.stats import ks_2samp
    for a in cols:
        o = np.argsort(cols[a])
        n = len(o)
        for part, where in ((o[:n*3//100], 'smallest'), (o[-(n*3//100):], 'largest')):
            rest = np.ones(n, bool)
            rest[part] = False
            for b in cols:
                if b != a:
                    d = ks_2samp(cols[b][part], cols[b][rest], method='asymp').statistic*np.sqrt(len(part)*rest.sum()/n)
                    ctx.ok(d < KS, f'{what}: {b} depends on {a} (where {a} is {where}: sqrt(n) D = {d:.2f})')
                    ctx.event('conditional distributions tested')


def functions(ctx, rng):
    q = gen.Units(rng) if rng.random() < .6 else gen.CANONICAL
    s = gen.flaregen_spec(rng)
    g = gen.mk_flaregen(s, np.random.default_rng(1), q)
    a, b, emin = s['alpha'], s['beta'], s['emin']
    e = emin*10**np.sort(rng.uniform(-2, 4, 30))
    e[:3] = emin*np.array([.5, .999, 1.0001])
    rate = g.frequency_greater_than(q(e, 'energy')).to_value(1/u.day)
    ctx.close(np.log10(rate), b+a*np.log10(e), 'log10 of the flare rate above E', rtol=1e-10, atol=1e-9, spec=s)
    dur = gen.loguni(rng, .001, 1000)
    ctx.close(g.get_nexp_greater_than(q(e, 'energy'), q(dur, 'time')), 10**(b+a*np.log10(e))*dur, 'expected flares above E', rtol=1e-7)
    one = g.get_nexp_greater_than(q(e[5], 'energy'), q(dur, 'time'))
    ctx.close(one, 10**(b+a*np.log10(e[5]))*dur, 'expected flares above one E', rtol=1e-7)
    ctx.close(g.get_ntotal(q(dur, 'time')), 10**(b+a*np.log10(emin))*dur, 'expected number of flares', rtol=1e-7)
    # cumulative distribution
    want = np.where(e < emin, 0, 1-(e/emin)**a)
    ctx.close(g.cdf(q(e, 'energy')), want, 'cumulative distribution', rtol=1e-7, atol=1e-9, spec=s)
    ctx.close(g.cdf(q(e[7], 'energy')), want[7], 'cumulative distribution at one energy', rtol=1e-7, atol=1e-9)
    x = np.concatenate([[0.], np.sort(rng.random(30)), [1-1e-12]])
    en = g.quantile_func(x)
    ctx.close(np.log10(en.to_value(u.erg)), np.log10(emin)+np.log10(1-x)/a, 'quantile function (log10)', rtol=1e-9, atol=1e-9)
    ctx.close(g.cdf(en), x, 'cumulative of quantile', rtol=1e-9, atol=1e-9)
    ctx.ok(np.all(np.diff(en.to_value(u.erg)) >= 0), 'quantile function decreases')
    back = g.quantile_func(g.cdf(q(e[3:], 'energy')))
    ok = (e[3:] > emin) & (want[3:] < 1-1e-5)
    ctx.close(back.to_value(u.erg)[ok], e[3:][ok], 'quantile of cumulative', rtol=1e-6)
    # the density is the derivative of the cumulative distribution
    pd = np.asarray(g.pdf(q(e, 'energy')), float)
    ctx.ok(pd.shape == e.shape, f'density of shape {pd.shape}')
    ctx.ok(np.all(pd[e < emin*(1-1e-9)] == 0), 'density below the minimum energy')
    h = 1e-5*e
    lo, hi = g.cdf(q(e-h, 'energy')), g.cdf(q(e+h, 'energy'))
    num = (hi-lo)/(2*h)
    inside = (e-h > emin) & (want < 1-1e-4)
    ctx.close(pd[inside], num[inside], 'density against the slope of the cumulative', rtol=1e-4, spec=s)
    ctx.close(pd[e > emin*1.00001], (-a/emin*(e/emin)**(a-1))[e > emin*1.00001], 'density', rtol=1e-7)
    ctx.event('function points judged', 4*e.size)
    ctx.key(s)
    ctx.sample(s)


def series(ctx, rng):
    """one configuration, many series"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    rate = gen.loguni(rng, .002, 15)
    s = gen.flaregen_spec(rng, rate=rate)
    lam = float(gen.pick(rng, [.4, 1.5, 4., 12., 40.]))
    dur = lam/rate
    nser = int(min(400, max(60, 2400/lam)))*(4 if ctx.thorough else 1)
    r = np.random.default_rng(int(rng.integers(1 << 40)))
    g = gen.mk_flaregen(s, r, q)
    counts, rows, last = [], [], []
    for _ in range(nser):
        fl = g.generate_flare_series(q(dur, 'time'))
        counts.append(len(fl))
        st = [flare_state(f) for f in fl]
        ctx.event('series judged')
        if not st:
            ctx.event('empty series seen')
            continue
        t = np.array([x['tpeak'] for x in st])
        ctx.ok(np.all(np.isfinite(t)) and np.all(t > 0), 'a peak time is not positive', spec=s)
        ctx.ok(np.all(np.diff(t) >= 0), 'peak times are not in order', spec=s)
        ctx.event('peak sequences judged')
        last.append(t[-1]/dur)
        rows += st
    ctx.event('flares sampled', len(rows))
    counts = np.array(counts)
    z = (counts.sum()-lam*nser)/np.sqrt(lam*nser)
    ctx.ok(abs(z) < Z, f'{counts.mean():.3f} flares per series instead of {lam:.3f} ({z:.1f} sigma)', spec=s, duration=dur)
    disp = np.sum((counts-lam)**2)/lam
    tol = Z*np.sqrt(2*nser+nser/lam)+20*(1+1/lam)
    ctx.ok(abs(disp-nser) < tol, f'variance of the number of flares is {disp/nser:.3f} times the Poisson one', spec=s)
    ctx.event('counts judged')
    if len(rows) < 200:
        return
    col = {k: np.array([x[k] for x in rows]) for k in rows[0]}
    ctx.ok(np.all(col['energy'] >= s['emin']*(1-1e-9)), 'a flare below the minimum energy', spec=s)
    uniform(ctx, 1-(col['energy']/s['emin'])**s['alpha'], 'energies', spec=s)
    ctx.event('energy samples tested')
    lf = np.log10(col['fwhm']/s['fm'])
    if s['fs'] == 0:
        ctx.close(lf, np.zeros(len(lf)), 'FWHM with zero spread', atol=1e-8)
    else:
        normal(ctx, lf/s['fs'], 'log10 of the FWHM', spec=s)
    if s['ts'] == 0:
        ctx.close(col['teff'], np.full(len(rows), s['tm']), 'temperature with zero spread', rtol=1e-8)
    else:
        normal(ctx, (col['teff']-s['tm'])/s['ts'], 'temperature', spec=s)
    uniform(ctx, (np.sin(np.radians(col['lat']))+1)/2, 'sine of latitude', spec=s)
    ctx.ok(np.all((col['lon'] >= -1e-9) & (col['lon'] <= 360+1e-9)), 'longitude outside 0 to 360', spec=s)
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    ctx.event('position samples tested')
    cols = {k: col[k] for k in ('energy', 'lat', 'lon')}
    if s['fs']:
        cols['fwhm'] = col['fwhm']
    if s['ts']:
        cols['teff'] = col['teff']
    independent(ctx, cols, 'flares')
    # density of the peaks: the series lasts the duration, stretched by less than half by the clusters
    last = np.array(last)
    if lam >= 4:
        m, e = last.mean(), last.std()/np.sqrt(len(last))
        ctx.margin('mean time of the last peak, in durations', m)
        ctx.ok(1-Z*e < m < 1.5+Z*e, f'the last peak is at {m:.3f} durations on average', spec=s)
        ctx.event('density tests')
    ctx.key('s', s, lam)
    ctx.sample(dict(spec=s, expected=lam, series=nser, flares=len(rows)))


def peaks(ctx, rng):
    """peak times for a given number of flares: as many as asked for, and their density"""
    cl = int(gen.pick(rng, [1, 2, 3, 6, 12, 40]))
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, .3, cluster_size=cl, rng=np.random.default_rng(int(rng.integers(1 << 40))))
    n = int(gen.pick(rng, [1, 2, 3, 5, 8, 30, 120]))
    reps = max(30, 1200//n)
    last = []
    for _ in range(reps):
        t = np.asarray(g.get_peaks(n), float)
        ctx.ok(t.shape == (n,), f'{t.shape} peak times for {n} flares')
        ctx.ok(np.all(t > 0) and np.all(np.isfinite(t)), 'a peak time is not positive')
        ctx.ok(np.all(np.diff(t) >= 0), 'peak times are not in order')
        last.append(t[-1])
        ctx.event('peak sequences judged')
    m, e = np.mean(last), np.std(last)/np.sqrt(reps)
    ctx.ok(1-Z*e-.02 < m < 1.5+Z*e, f'{n} flares in clusters of {cl}: the last peak is at {m:.3f} durations on average (+-{e:.3f})')
    ctx.event('density tests')
    # clusters: a long gap before each, short ones inside; sizes are Poisson (never empty) about the configured one
    m = 400 if cl < 20 else 4000
    gaps = np.concatenate([np.diff(np.concatenate([[0.], np.asarray(g.get_peaks(m), float)])) for _ in range(40 if cl < 20 else 16)])
    gaps = [gaps, np.concatenate([np.diff(np.concatenate([[0.], np.asarray(g.get_peaks(9000), float)])) for _ in range(2 if cl < 20 else 8)])]
    k = np.arange(1, 200)
    pk = np.exp(k*np.log(cl)-cl-np.cumsum(np.log(k)))
    pk /= pk.sum()
    size = np.sum(pk*k)
    want = 2*np.sum(pk*(1+(k-1)/(4*k**2)))/size/(np.sum(pk*(1+(k-1)/(2*k)))/size)**2
    for gap in gaps:
        got = np.mean(gap**2)/np.mean(gap)**2
        ctx.margin('bunching of the peaks over the configured one', got/want)
        low, high = (.88, 1.13) if cl <= 3 else (.83, 1.16) if cl <= 6 else (.75, 1.33)
        ctx.ok(low < got/want < high, f'flares in clusters of {cl}: the gaps vary as in clusters of another size ({got:.2f} instead of {want:.2f})')
    ctx.event('clusterings judged')
    ctx.key('p', cl, n)
    # the separate samplers
    k = 3000
    s = gen.flaregen_spec(rng)
    s['fs'], s['ts'] = float(gen.pick(rng, [.25, .05, 1.])), float(gen.pick(rng, [400., 50., .4*s['tm']]))
    g = gen.mk_flaregen(s, np.random.default_rng(int(rng.integers(1 << 40))), gen.Units(rng))
    normal(ctx, np.log10(g.gen_fwhm(k).to_value(u.day)/s['fm'])/s['fs'], 'log10 of the FWHM')
    normal(ctx, (g.gen_teffs(k).to_value(u.K)-s['tm'])/s['ts'], 'temperature')
    la, lo = g.gen_coords(k)
    uniform(ctx, (np.sin(la.to_value(u.rad))+1)/2, 'sine of latitude')
    uniform(ctx, lo.to_value(u.deg)/360, 'longitude')
    big = 20000
    tails(ctx, np.log10(g.gen_fwhm(big).to_value(u.day)/s['fm'])/s['fs'], 'log10 of the FWHM')
    tails(ctx, (g.gen_teffs(big).to_value(u.K)-s['tm'])/s['ts'], 'temperature')
    independent(ctx, dict(lat=la.to_value(u.deg), lon=lo.to_value(u.deg)), 'positions')
    la, lo = g.gen_coords(big)
    conditional(ctx, dict(lat=la.to_value(u.deg), lon=lo.to_value(u.deg)), 'positions')
    ctx.event('energy samples tested')
    ctx.event('position samples tested')


def rare(ctx, rng):
    """short observations with few flares: the number is still Poisson"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    rate = gen.loguni(rng, .05, 15)
    s = gen.flaregen_spec(rng, rate=rate)
    lam = float(gen.pick(rng, [.08, .3, .9]))
    g = gen.mk_flaregen(s, np.random.default_rng(int(rng.integers(1 << 40))), q)
    d = q(lam/rate, 'time')
    counts = [len(g.generate_flare_series(d)) for _ in range(2500*(3 if ctx.thorough else 1))]
    poisson_law(ctx, counts, lam, 'flares in an observation', spec=s)
    ctx.event('series judged', len(counts))
    ctx.key('r', s, lam)


def storm(ctx, rng):
    """long observations of active stars: thousands of flares at once; and series of exactly one flare"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    rate = gen.loguni(rng, .5, 15)
    s = gen.flaregen_spec(rng, rate=rate)
    g = gen.mk_flaregen(s, np.random.default_rng(int(rng.integers(1 << 40))), q)
    lone = rng.random() < .4
    if lone:
        d, rows = q(.3/rate, 'time'), []
        for _ in range(6000):
            fl = g.generate_flare_series(d)
            if len(fl) == 1:
                rows.append(flare_state(fl[0]))
    else:
        lam = gen.loguni(rng, 200, 4000)
        fl = g.generate_flare_series(q(lam/rate, 'time'))
        ctx.ok(abs(len(fl)-lam) < Z*np.sqrt(lam), f'{len(fl)} flares instead of {lam:.0f}', spec=s)
        rows = [flare_state(f) for f in fl]
        t = np.array([x['tpeak'] for x in rows])
        ctx.ok(np.all(t > 0) and np.all(np.diff(t) >= 0), 'peak times are not positive and in order', spec=s)
        slack = 10*np.sqrt(max(1, s['cluster'])/lam)      # there are about lam/cluster independent clusters
        ctx.ok(1-slack < t[-1]*rate/lam < 1.5+slack, f'the last of {len(t)} peaks is at {t[-1]*rate/lam:.2f} durations', spec=s)
        if rng.random() < .5:      # a season of so many flares is still Poisson, not its mean
            lam = gen.loguni(rng, 100, 1500)
            n = np.array([len(g.generate_flare_series(q(lam/rate, 'time'))) for _ in range(16)])
            ctx.ok(np.sum((n-lam)**2)/lam > .7, f'the number of flares hardly varies: {n.tolist()} for {lam:.1f} expected', spec=s)
            ctx.ok(np.sum((n-lam)**2)/lam < 70, f'the number of flares varies too much: {n.tolist()} for {lam:.1f} expected', spec=s)
            ctx.event('large counts judged', 16)
    col = {k: np.array([x[k] for x in rows]) for k in rows[0]}
    uniform(ctx, 1-(col['energy']/s['emin'])**s['alpha'], 'energies', spec=s)
    distinct(ctx, col['energy'], 'energies', spec=s)
    if s['fs']:
        normal(ctx, np.log10(col['fwhm']/s['fm'])/s['fs'], 'log10 of the FWHM', spec=s)
    if s['ts']:
        normal(ctx, (col['teff']-s['tm'])/s['ts'], 'temperature', spec=s)
    uniform(ctx, (np.sin(np.radians(col['lat']))+1)/2, 'sine of latitude', spec=s)
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    cols = {k: col[k] for k in ('energy', 'lat', 'lon')}
    cols.update({k: col[k] for k, z in (('fwhm', s['fs']), ('teff', s['ts'])) if z})
    if not lone:
        cols['order'] = np.arange(len(rows))
    independent(ctx, cols, 'flares')
    ctx.event('lone flares' if lone else 'storm flares', len(rows))
    ctx.key('st', s)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('functions', functions, 60, 1500), ('series', series, 24, 400), ('peaks', peaks, 30, 400), ('rare', rare, 8, 80), ('storm', storm, 12, 120)]
