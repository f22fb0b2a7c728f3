"""Generated faculae have the configured properties and distribution."""
import numpy as np
from astropy import units as u

from vsm import gen, ref
from vsm.props.c19 import Z, conditional, independent, normal, poisson_law, tails, uniform

RULE = ('facula generators with random peak radii and lifetimes, spreads, depths, temperature parameters, grids, units and '
        'stellar radii; thousands of generated faculae per run are compared with the configured values and '
        'distributions (6.5 sigma and Kolmogorov bounds) and the numbers born with the Poisson law. Distinct: a '
        'different generator; non-trivial: faculae were generated.')
NEED = {'faculae judged': 15000, 'radius samples tested': 15, 'lifetime samples tested': 15, 'joint samples tested': 10,
        'position samples tested': 20, 'birth counts tested': 15, 'tails tested': 2, 'count laws tested': 2,
        'lone faculae': 1000, 'faculae of large batches': 300, 'batch sizes tested': 20}
ASSUMPTIONS = ['statistical bounds are 6.5 sigma or sqrt(n) D < 3.4 (p below 1e-9 each)']


def make(rng, q, radius):
    s = gen.facgen_spec(rng, radius, small=True)
    s['grid'] = int(rng.integers(10, 60)) if rng.random() < .6 else (int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    s.update(rsig=float(gen.pick(rng, [0., .1, .2, .5])), lsig=float(gen.pick(rng, [0., .1, .3, .6])),
             fslope=float(gen.pick(rng, [0., -20/s['r'], 5/s['r']])), fmin=float(s['r']*rng.uniform(0, 1)),
             fbase=float(np.round(rng.uniform(-400, -50), 1)), wslope=float(gen.pick(rng, [0., 15/s['r']])),
             wint=float(np.round(rng.uniform(20, 300), 1)))
    return s, gen.mk_facgen(s, np.random.default_rng(int(rng.integers(1 << 40))), q)


def judge(ctx, f, s):
    x = gen.facula_state(f)
    ctx.ok(x['growing'], 'a generated facula is not growing', spec=s)
    ctx.ok(np.isfinite(x['rmax']) and x['rmax'] > 0, f'maximum radius {x["rmax"]!r}', spec=s)
    ctx.close(x['r'], x['rmax']/np.e**2, 'radius of a newborn facula', rtol=1e-9, spec=s)
    for k in ('depth', 'fslope', 'fmin', 'fbase', 'wslope', 'wint'):
        ctx.close(x[k], s[k], f'{k} of a generated facula', rtol=1e-9, spec=s)
    ctx.ok(np.isfinite(x['life']) and x['life'] > 0, f'lifetime {x["life"]!r}', spec=s)
    ctx.ok(-1e-9 <= x['lon'] <= 360+1e-9, f'longitude {x["lon"]!r}', spec=s)
    ctx.event('faculae judged')
    return x


def sample(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s, g = make(rng, q, radius)
    n = 900*(4 if ctx.thorough else 1)
    fac, left = [], n
    while left > 0:
        k = min(left, int(gen.pick(rng, [1, 2, 50, 500])))
        new = g.generate_faculae(k)
        ctx.ok(len(new) == k, f'{len(new)} faculae generated instead of {k}')
        fac += list(new)
        left -= k
    shape = g.gridmaker.zeros().shape
    ctx.ok(fac[0].map_pixels(q(radius, 'len')).shape == shape, "a generated facula is not on its generator's grid")
    x = [judge(ctx, f, s) for f in fac]
    col = {k: np.array([v[k] for v in x], float) for k in ('lat', 'lon', 'rmax', 'life')}
    zr, zl = np.log10(col['rmax']/s['r']), np.log10(col['life']/s['life'])
    for z, sig, name in ((zr, s['rsig'], 'maximum radius'), (zl, s['lsig'], 'lifetime')):
        if sig == 0:
            ctx.close(z, np.zeros(n), f'log {name} with zero spread', atol=1e-8, spec=s)
        else:
            normal(ctx, z/sig, f'log10 of the {name}', spec=s)
            ctx.event(('radius' if name[0] == 'm' else 'lifetime')+' samples tested')
    if s['rsig'] and s['lsig']:
        ctx.close(zl/s['lsig'], zr/s['rsig'], 'radius and lifetime do not move together', atol=1e-6, spec=s)
        ctx.event('joint samples tested')
    uniform(ctx, (np.sin(np.radians(col['lat']))+1)/2, 'sine of latitude', spec=s)
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    ctx.event('position samples tested')
    cols = dict(lat=col['lat'], lon=col['lon'])
    if s['rsig']:
        cols['radius'] = zr
    independent(ctx, cols, 'faculae')
    ctx.key(s)
    ctx.sample(s)


def births(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s, g = make(rng, q, radius)
    lam = float(gen.pick(rng, [.3, 1., 4., 15.]))
    per_day = g.get_n_faculae_expected(1*u.day, radius*u.km)
    ctx.ok(np.isfinite(per_day) and per_day > 0, f'{per_day!r} faculae expected per day', spec=s)
    t = lam/per_day
    reps = int(max(40, 500/lam))
    counts = []
    for _ in range(reps):
        new = g.birth_faculae(q(t, 'time'), q(radius, 'len'))
        counts.append(len(new))
        for f in new:
            judge(ctx, f, s)
    c = np.array(counts)
    z = (c.sum()-lam*reps)/np.sqrt(lam*reps)
    ctx.ok(abs(z) < Z, f'{c.mean():.3f} faculae born instead of {lam:.3f} ({z:.1f} sigma)', spec=s)
    disp = np.sum((c-lam)**2)/lam
    ctx.ok(abs(disp-reps) < Z*np.sqrt(2*reps+reps/lam)+20*(1+1/lam),
           f'variance of the number born is {disp/reps:.3f} times the Poisson one', spec=s)
    ctx.event('birth counts tested')
    ctx.key('b', s, lam)


def ends(ctx, rng):
    """a large population at once, and many short birth periods: the ends of the distributions"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s, _ = make(rng, gen.CANONICAL, radius)
    s.update(rsig=.2, lsig=.3, grid=12)
    g = gen.mk_facgen(s, np.random.default_rng(int(rng.integers(1 << 40))))
    fa = g.generate_faculae(12000)
    ctx.ok(len(fa) == 12000, f'{len(fa)} faculae generated instead of 12000')
    tails(ctx, np.log10(np.array([a.r_max.to_value(u.km) for a in fa])/s['r'])/s['rsig'], 'log10 of the maximum radius', spec=s)
    tails(ctx, np.log10(np.array([a.lifetime.to_value(u.day) for a in fa])/s['life'])/s['lsig'], 'log10 of the lifetime', spec=s)
    conditional(ctx, dict(lat=np.array([a.lat.to_value(u.deg) for a in fa]), lon=np.array([a.lon.to_value(u.deg) for a in fa]),
                          radius=np.array([a.r_max.to_value(u.km) for a in fa])), 'faculae')
    lam = float(gen.pick(rng, [.1, .3, .9]))
    t = gen.CANONICAL(lam/g.get_n_faculae_expected(1*u.day, radius*u.km), 'time')
    r = gen.CANONICAL(radius, 'len')
    poisson_law(ctx, [len(g.birth_faculae(t, r)) for _ in range(2000)], lam, 'faculae born', spec=s)
    ctx.key('e', s)


def singles(ctx, rng):
    """faculae generated one at a time, and very many at once"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s, _ = make(rng, gen.CANONICAL, radius)
    s.update(rsig=.2, lsig=.3, grid=12)
    g = gen.mk_facgen(s, np.random.default_rng(int(rng.integers(1 << 40))))
    if rng.random() < .5:
        fa = [g.generate_faculae(1) for _ in range(1300)]
        ctx.ok(all(len(a) == 1 for a in fa), 'more or less than one facula generated')
        fa = [a[0] for a in fa]
        ctx.event('lone faculae', len(fa))
    else:
        lam = gen.loguni(rng, 200, 2500)
        fa = g.birth_faculae(lam/g.get_n_faculae_expected(1*u.day, radius*u.km)*u.day, radius*u.km)
        ctx.ok(abs(len(fa)-lam) < Z*np.sqrt(lam), f'{len(fa)} faculae born instead of {lam:.0f}', spec=s)
        ctx.event('faculae of large batches', len(fa))
    x = [judge(ctx, f, s) for f in fa]
    col = {k: np.array([v[k] for v in x], float) for k in ('lat', 'lon', 'rmax', 'life')}
    normal(ctx, np.log10(col['rmax']/s['r'])/s['rsig'], 'log10 of the maximum radius', spec=s)
    normal(ctx, np.log10(col['life']/s['life'])/s['lsig'], 'log10 of the lifetime', spec=s)
    uniform(ctx, (np.sin(np.radians(col['lat']))+1)/2, 'sine of latitude', spec=s)
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    independent(ctx, dict(lat=col['lat'], lon=col['lon'], radius=col['rmax'], order=np.arange(len(fa))), 'faculae')
    ctx.key('1', s)


def batches(ctx, rng):
    """the law does not depend on how many are made at a time"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    for k in [2, 3, 4, 5, int(rng.integers(6, 30))]:
        s, _ = make(rng, gen.CANONICAL, radius)
        s.update(rsig=.2, lsig=.3, grid=12)
        g = gen.mk_facgen(s, np.random.default_rng(int(rng.integers(1 << 40))))
        at = [g.get_coords(k) for _ in range(500)]
        lat, lon = (np.array([c[i].to_value(u.deg) for c in at], float) for i in (0, 1))
        ctx.ok(lat.shape == lon.shape == (500, k), f'coordinates of shape {lat.shape} instead of 500 times {k}')
        fa = [a for _ in range(-(-240//k)) for a in g.generate_faculae(k)]
        for name, la, lo in (('positions', lat.ravel(), lon.ravel()),
                             ('positions of faculae', np.array([a.lat.to_value(u.deg) for a in fa]), np.array([a.lon.to_value(u.deg) for a in fa]))):
            uniform(ctx, lo/360, f'longitude ({name}, {k} at a time)', spec=s)
            uniform(ctx, (np.sin(np.radians(la))+1)/2, f'sine of latitude ({name}, {k} at a time)', spec=s)
        normal(ctx, np.log10(np.array([a.r_max.to_value(u.km) for a in fa])/s['r'])/s['rsig'], f'log10 of the maximum radius, {k} at a time', spec=s)
        normal(ctx, np.log10(np.array([a.lifetime.to_value(u.day) for a in fa])/s['life'])/s['lsig'], f'log10 of the lifetime, {k} at a time', spec=s)
        for i, j in ((0, 1), (0, k-1), (k-2, k-1)):
            if i != j:
                independent(ctx, dict(lat1=lat[:, i], lat2=lat[:, j], lon1=lon[:, i], lon2=lon[:, j]), f'faculae of one batch of {k}')
        ctx.event('batch sizes tested')
        ctx.key('k', s, k)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('sample', sample, 40, 400), ('births', births, 30, 300), ('ends', ends, 4, 40), ('singles', singles, 12, 120), ('batches', batches, 3, 50)]
