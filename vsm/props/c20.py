"""Granulation coverage is a finite, bounded, seeded Gaussian process."""
import numpy as np
from astropy import units as u
from scipy.linalg import solve_triangular
from scipy.special import ndtr
from vspec_vsm.granules import Granulation, GranulationKernel

from vsm import gen, ref
from vsm.props.c19 import normal

RULE = ('granulation models with random mean, amplitude, period and seed, sampled coarsely, at steps down to a '
        '100000th of the period, irregularly, out of order and with repeated times; every value is checked to be finite '
        'and in [0,1], the same for the same seed, and constant for zero amplitude. Unclipped samples over many seeds are whitened '
        'with the documented covariance and must come out standard normal. Distinct: a different model or '
        'time axis; non-trivial: non-zero amplitude.')
NEED = {'coverages judged': 120, 'values judged': 5000, 'finely sampled coverages': 30, 'repeated seeds judged': 80,
        'zero amplitude judged': 20, 'seeds whitened': 300, 'kernel values judged': 300, 'star-level coverages judged': 30,
        'star without granulation judged': 40, 'clipped values seen': 100, 'seeds told apart': 2000, 'long series whitened': 8, 'means tested': 10, 'clipped values judged': 9000}
ASSUMPTIONS = ['statistical bounds are 6.5 sigma or sqrt(n) D < 3.4',
               'up to 1e-8 of added variance (numerical jitter) is allowed']
JITTER = 1e-8


def model(rng, q, **kw):
    p = dict(mean=float(gen.pick(rng, [0., .2, .5, 1., float(rng.random())])), amp=gen.loguni(rng, 1e-4, 3) if rng.random() < .85 else gen.loguni(rng, 1e-9, 1e-4),
             period=gen.loguni(rng, .2, 300), dteff=float(rng.uniform(50, 300)), seed=int(rng.integers(0, 1 << 31)))
    p.update(kw)
    return p, gen.mk_gran(p, q)


def basics(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    useed = int(rng.integers(1 << 30))

    def again(p):     # the same numbers in the same units: fine sampling amplifies rounding
        return gen.mk_gran(p, gen.Units(np.random.default_rng(useed)))
    p, _ = model(rng, q)
    if rng.random() < .2:
        p, _ = model(rng, q, mean=0.)
    g = again(p)
    n = int(gen.pick(rng, [1, 2, 17, 60, 150, 150, 400]))
    k = rng.random()
    if k < .35:
        step = p['period']*gen.loguni(rng, 1e-5, 1e-2)
        t = float(rng.uniform(0, 1000))+step*np.arange(n)
        ctx.event('finely sampled coverages')
    elif k < .6:
        t = p['period']*gen.loguni(rng, .01, 3)*np.arange(n)
    elif k < .8:
        t = rng.uniform(0, 10*p['period'], n)
    else:
        t = np.sort(rng.uniform(0, 10*p['period'], n))
        t[1::3] = t[0:-1:3][:len(t[1::3])]
    tq = q(t/24, 'time')
    info = dict(model=p, n=n, t=t[:4])
    c = np.asarray(g.get_coverage(tq))
    ctx.ok(c.shape == t.shape, f'coverage of shape {c.shape} for times of shape {t.shape}', **info)
    ctx.ok(np.all(np.isfinite(c)), f'{int(np.sum(~np.isfinite(c)))} of {n} coverages are not finite', **info)
    ctx.ok(np.all((c >= 0) & (c <= 1)), f'coverage outside [0,1]: {c.min()!r} to {c.max()!r}', **info)
    ctx.event('coverages judged')
    ctx.event('values judged', n)
    ctx.event('clipped values seen', int(np.sum((c == 0) | (c == 1))))
    # nothing jumps faster than the covariance allows
    o = np.argsort(t, kind='stable')
    dt = np.diff(t[o])
    var = 2*(ref.gran_cov(0., p['amp'], p['period'])-ref.gran_cov(dt, p['amp'], p['period']))
    jump = np.abs(np.diff(c[o]))/np.sqrt(np.maximum(var, 0)+2*JITTER)
    ctx.ok(np.all(jump < 8), f'neighbouring values differ by {jump.max(initial=0):.1f} standard deviations', **info)
    # the same seed gives the same curve, another seed another one
    p2 = dict(p)
    c2 = np.asarray(again(p2).get_coverage(tq))
    ctx.ok(np.array_equal(c, c2), 'the same seed gives another coverage', **info)
    for _ in range(int(gen.pick(rng, [1, 1, 2, 5]))):
        ctx.ok(np.array_equal(c, np.asarray(g.get_coverage(tq))), 'asking again gives another coverage', **info)
    ctx.event('repeated seeds judged')
    if np.any((c > 0) & (c < 1)):
        p2['seed'] = p['seed']+1 if rng.random() < .3 else p['seed'] ^ (1 << int(rng.integers(32)))   # any bit counts
        ctx.ok(not np.array_equal(c, np.asarray(again(p2).get_coverage(tq))), 'two seeds give the same coverage', **info)
    ctx.key(p, n)
    ctx.sample(info)


def constant(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    p, g = model(rng, q, amp=0.)
    t = rng.uniform(0, 100, int(gen.pick(rng, [1, 5, 300])))
    c = np.asarray(g.get_coverage(q(t, 'time')))
    ctx.close(c, np.full(t.shape, p['mean']), 'coverage with zero amplitude', rtol=1e-6, atol=1e-5, model=p)
    ctx.ok(np.all((c >= 0) & (c <= 1)), 'coverage outside [0,1]', model=p)
    ctx.event('zero amplitude judged')
    # the kernel itself
    for _ in range(12):
        amp, per = gen.loguni(rng, 1e-3, 10), gen.loguni(rng, .1, 100)
        a = float(rng.uniform(0, 50))
        tau = float(gen.pick(rng, [0., per*rng.uniform(0, 6)]))
        b = a+tau*float(gen.pick(rng, [-1, 1]))
        v = float(np.asarray(GranulationKernel(amp, per).evaluate(a, b)).reshape(-1)[0])
        ctx.close(v, ref.gran_cov(abs(tau), amp, per), 'kernel value', rtol=2e-4, atol=2e-5*amp/per*(1+a/per), amp=amp, period=per, lag=tau)
        ctx.event('kernel values judged')


def whiten(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    mean = float(rng.uniform(.3, .7))
    per = gen.loguni(rng, .1, 100) if rng.random() < .6 else gen.loguni(rng, 100, 3000)
    sd = float(rng.uniform(.01, .04)) if rng.random() < .6 else gen.loguni(rng, .002, .01)
    amp = sd**2*per/np.cos(np.pi/4)
    m = int([24, 2, 24, 3, 24][ctx.current[1] % 5])
    t = float(rng.uniform(0, 50) if rng.random() < .6 else rng.uniform(-1e5, 1e5))+per*float(rng.uniform(.3, 1.2))*np.arange(m)
    if rng.random() < .4:      # a long gap in the observation
        t[m//2:] += per*gen.loguni(rng, 1, 300)
    K = ref.gran_cov(np.abs(t[:, None]-t), amp, per)
    L = np.linalg.cholesky(K+1e-12*np.eye(m))
    nseed = 60 if not ctx.thorough else 300
    s0 = int(rng.integers(0, 1 << 30))
    z, raw = [], []
    for i in range(nseed):
        p = dict(mean=mean, amp=amp, period=per, dteff=100., seed=s0+i*7919)
        c = np.asarray(gen.mk_gran(p, q).get_coverage(q(t/24, 'time')), float)
        raw.append(c)
        z.append(solve_triangular(L, c-mean, lower=True))
        ctx.event('seeds whitened')
    z = np.array(z)
    info = dict(mean=mean, amplitude=amp, period=per, seeds=nseed)
    mean_of(ctx, L, raw, mean, **info)
    normal(ctx, z.ravel(), 'whitened granulation', **info)
    # seeds and times are not tied to each other
    cz = z.T@z/nseed-np.eye(m)
    ctx.ok(np.abs(cz).max() < 6.5*np.sqrt(2/nseed)+10/nseed, f'whitened covariance off by {np.abs(cz).max():.2f}', **info)
    lag = [np.sum(z[:, k:]*z[:, :-k])/np.sqrt(nseed*(m-k)) for k in (1, 2, 3)[:m-1]]
    ctx.ok(np.max(np.abs(lag)) < 6.5, f'correlation left at some lag ({np.max(np.abs(lag)):.1f} sigma)', **info)
    s = np.sum(z[1:]*z[:-1])/np.sqrt((nseed-1)*m)
    ctx.ok(abs(s) < 6.5, 'coverages of different seeds are correlated', **info)
    ctx.margin('standard deviation of whitened samples', z.std())
    ctx.key('w', mean, per, sd)


def mean_of(ctx, L, x, mu, **info):
    """the best estimate of the mean from each series, pooled"""
    one = solve_triangular(L, np.ones(len(L)), lower=True)
    z = np.sum([one@solve_triangular(L, v-mu, lower=True) for v in x])/np.sqrt(len(x)*(one@one))
    ctx.ok(abs(z) < 6.5, f'the mean coverage is off by {z:.1f} sigma', **info)
    ctx.event('means tested')


def season(ctx, rng):
    """long series, whitened at once"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    mean = float(rng.uniform(.4, .6))
    per = gen.loguni(rng, .5, 100)
    sd = gen.loguni(rng, .003, .04)
    amp = sd**2*per/np.cos(np.pi/4)
    m = [1600, 520, 1100, 700][ctx.current[1] % 4]
    t = float(rng.uniform(0, 50))+per*float(rng.uniform(.3, .9))*np.arange(m)
    K = ref.gran_cov(np.abs(t[:, None]-t), amp, per)
    L = np.linalg.cholesky(K+1e-12*np.eye(m))
    c = [np.asarray(gen.mk_gran(dict(mean=mean, amp=amp, period=per, dteff=100., seed=int(rng.integers(0, 1 << 31))), q).get_coverage(q(t/24, 'time')), float)
         for _ in range(2)]
    info = dict(mean=mean, amplitude=amp, period=per, n=m)
    mean_of(ctx, L, c, mean, **info)
    for x in c:
        ctx.ok(x.shape == t.shape and np.all((x >= 0) & (x <= 1)), 'coverage not finite, outside [0,1] or of another shape', **info)
        z = solve_triangular(L, x-mean, lower=True)
        normal(ctx, z, 'whitened granulation of a long series', **info)
        lag = [np.sum(z[k:]*z[:-k])/np.sqrt(m-k) for k in (1, 2, 3)]
        ctx.ok(np.max(np.abs(lag)) < 6.5, f'correlation left at some lag ({np.max(np.abs(lag)):.1f} sigma)', **info)
        ctx.event('long series whitened')
    ctx.key('season', per, m, mean)


def clipped(ctx, rng):
    """what is reported is the process limited to [0,1]: far apart, values are independent draws of a clipped normal"""
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    per = gen.loguni(rng, .5, 100)
    mean = float(gen.pick(rng, [0., 1., .1, .9, float(rng.random())]))
    sd = gen.loguni(rng, .05, 1.5)
    n = 300
    c = []
    for _ in range(4):
        p = dict(mean=mean, amp=sd**2*per/np.cos(np.pi/4), period=per, dteff=100., seed=int(rng.integers(0, 1 << 31)))
        t = 60*per*(np.arange(n)+rng.uniform(-.3, .3, n))
        c.append(np.asarray(gen.mk_gran(p, q).get_coverage(q(t/24, 'time')), float))
    c = np.sort(np.concatenate(c))
    N = len(c)
    info = dict(mean=mean, sd=sd, period=per, n=N)
    for edge, prob in ((0., ndtr(-mean/sd)), (1., ndtr((mean-1)/sd))):
        k = int(np.sum(c == edge))
        tol = 6.5*np.sqrt(N*prob*(1-prob))+4
        ctx.ok(abs(k-N*prob) <= tol, f'{k} of {N} values are exactly {edge}, expected {N*prob:.1f}', **info)
    x = (np.arange(1, 200)/200)
    F = np.searchsorted(c, x, side='right')/N
    D = np.max(np.abs(F-ndtr((x-mean)/sd)))*np.sqrt(N)
    ctx.ok(D < 3.4, f'values are not a normal distribution limited to [0,1] (Kolmogorov sqrt(n) D = {D:.2f})', **info)
    ctx.margin('Kolmogorov distance of clipped values', D)
    ctx.event('clipped values judged', N)
    ctx.key('c', mean, sd, per)


def star_level(ctx, rng):
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    spec = gen.star(rng, nspots=0, nfac=0)
    spec['grid'] = 60
    p, g = model(rng, q)
    if rng.random() < .3:
        p['mean'] = 0.
    if rng.random() < .25:
        p['dteff'] = -p['dteff']      # cooler is only the usual case
    spec['gran'] = p
    t = np.sort(rng.uniform(0, 5*p['period'], int(gen.pick(rng, [1, 20, 60]))))
    tq = q(t/24, 'time')
    st = gen.mk_star(spec, gen.CANONICAL)
    for _ in range(int(gen.pick(rng, [0, 0, 1, 3, 6]))):     # however often it was asked before, for whatever times
        st.get_granulation_coverage(q(np.sort(rng.uniform(0, 5*p['period'], 4))/24, 'time'))
    c = np.asarray(st.get_granulation_coverage(tq))
    want = np.asarray(gen.mk_gran(p).get_coverage(tq))
    ctx.close(c, want, "star's granulation coverage", rtol=0, atol=1e-12, model=p)
    ctx.event('star-level coverages judged')
    if len(t) > 2:          # the same star asked for other times between the same ends
        t2 = t.copy()
        t2[1:-1] = np.sort(rng.uniform(t[0], t[-1], len(t)-2))
        t2q = q(t2/24, 'time')
        ctx.close(np.asarray(st.get_granulation_coverage(t2q)), np.asarray(gen.mk_gran(p).get_coverage(t2q)),
                  "star's granulation coverage at other times", rtol=0, atol=1e-12, model=p)
    p0 = dict(p, mean=float(gen.pick(rng, [.2, .7])), amp=0.)
    spec['gran'] = p0
    c = np.asarray(gen.mk_star(spec, q).get_granulation_coverage(tq))
    ctx.close(c, np.full(t.shape, p0['mean']), "star's coverage with zero amplitude", atol=1e-5, rtol=0)
    # nothing to see
    for off in ('none', 'off', 'contrast', 'removed'):
        spec['gran'] = dict(p, dteff=0.) if off == 'contrast' else None
        kw = {}
        st = gen.mk_star(spec, q, **kw)
        if off == 'off':
            st.granulation = Granulation.off(seed=int(rng.integers(1000)))
        if off == 'removed':
            st.granulation = None
        c = np.asarray(st.get_granulation_coverage(tq))
        ctx.ok(c.shape == t.shape and np.all(c == 0), f'granulation coverage {c[:3]} of a star whose granulation is off ({off})')
        ctx.event('star without granulation judged')
    c = np.asarray(Granulation.off().get_coverage(tq))
    ctx.ok(c.shape == t.shape and np.all(c == 0), f'disabled granulation has coverage {c[:3]}')
    ctx.key('s', p, len(t))


def seeds(ctx, rng):
    """hundreds of seeds: no two share a curve"""
    q = gen.CANONICAL
    n = 500
    top = int([n, 1 << 16, 1 << 20, 1 << 31, 1 << 32][ctx.current[1] % 5])
    s = rng.permutation(top)[:n] if top <= 1 << 16 else np.unique(rng.integers(0, top, n))
    tq = q(np.array([0., .7, 2.])/24*5, 'time')
    seen = {}
    for k in s.tolist():
        p = dict(mean=.5, amp=.01, period=5., dteff=100., seed=int(k))
        c = tuple(np.asarray(gen.mk_gran(p, q).get_coverage(tq), float).tolist())
        if c in seen:
            ctx.fail(f'seeds {seen[c]} and {k} give the same coverage', coverage=c)
        seen[c] = k
    ctx.event('seeds told apart', len(s))
    ctx.key('seeds', top, ctx.current[1])


WORKLOADS = [('basics', basics, 170, 3000), ('constant', constant, 60, 400), ('whiten', whiten, 10, 60),
             ('star', star_level, 50, 500), ('clipped', clipped, 16, 200), ('seeds', seeds, 8, 40), ('season', season, 4, 40)]
