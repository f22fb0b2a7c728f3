"""Generated spots have the configured properties and distribution."""
import numpy as np
from astropy import units as u
from scipy.stats import norm
from vspec_vsm.spots import SpotGenerator

from vsm import gen, ref
from vsm.props.c19 import KS, Z, conditional, independent, normal, poisson_law, tails, uniform

RULE = ('spot generators with random mean areas, spreads, temperatures, rates, initial areas, both latitude distributions, '
        'both grid kinds, units and stellar radii; thousands of generated spots per run are compared with the '
        'configured values and distributions (6.5 sigma and Kolmogorov bounds), numbers born with the Poisson law, and '
        'mature populations with the life of a spot and the stopping rule. Distinct: a different generator; '
        'non-trivial: spots were generated.')
NEED = {'spots judged': 9000, 'area samples tested': 8, 'ratio samples tested': 15, 'isotropic samples tested': 5,
        'solar samples tested': 5, 'birth counts tested': 8, 'mature populations judged': 40, 'static mature spots judged': 300,
        'evolving mature spots judged': 300, 'stopping rule judged': 40, 'mature ages tested': 5, 'tails tested': 2, 'count laws tested': 2,
        'lone spots': 1000, 'spots of large batches': 300,
        'batch sizes tested': 15, 'crowded mature populations': 2}
ASSUMPTIONS = ['statistical bounds are 6.5 sigma or sqrt(n) D < 3.4 (p below 1e-9 each)',
               'the solid angle of a spot may be taken on the sphere or on the tangent plane (they agree for small spots)']


def make(rng, q, radius, **kw):
    s = gen.spotgen_spec(rng, radius)
    s['grid'] = int(rng.integers(10, 60)) if rng.random() < .6 else (int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    s['tu'] = float(np.round(rng.uniform(2000, 4000), 1))
    s['tp'] = s['tu']+float(np.round(rng.uniform(0, 500), 1))
    s.update(kw)
    return s, gen.mk_spotgen(s, np.random.default_rng(int(rng.integers(1 << 40))), q)


def judge_fixed(ctx, sp, s, g, mature=False):
    """what every generated spot has in common"""
    x = gen.spot_state(sp)
    if not mature:
        ctx.ok(x['growing'], 'a generated spot is not growing', spec=s)
        ctx.close(x['area'], s['init'], 'area of a newborn spot', rtol=1e-9, spec=s)
    ctx.close(x['tu'], s['tu'], 'umbra temperature of a generated spot', rtol=1e-9, spec=s)
    ctx.close(x['tp'], s['tp'], 'penumbra temperature of a generated spot', rtol=1e-9, spec=s)
    ctx.close(x['g'], s['g'], 'growth rate of a generated spot', rtol=1e-9, spec=s)
    ctx.close(x['d'], s['d'], 'decay rate of a generated spot', rtol=1e-9, spec=s)
    ctx.ok(np.isfinite(x['ratio']) and x['ratio'] > 0, f'area ratio {x["ratio"]!r}', spec=s)
    ctx.ok(np.isfinite(x['area_max']) and x['area_max'] > 0, f'maximum area {x["area_max"]!r}', spec=s)
    ctx.ok(-90-1e-9 <= x['lat'] <= 90+1e-9 or s['dist'] == 'solar', f'latitude {x["lat"]!r}', spec=s)
    ctx.ok(-1e-9 <= x['lon'] <= 360+1e-9, f'longitude {x["lon"]!r}', spec=s)
    ctx.ok(gen.spot_shape(sp) == np.shape(g.gridmaker.zeros()), "a generated spot is not on its generator's grid", spec=s)
    ctx.event('spots judged')
    return x


def judge_area_spread(ctx, z, s):
    """z = ln(maximum area / mean); the documented spread is in dex"""
    n, sig = len(z), s['sigma']
    if sig == 0:
        ctx.close(z, np.zeros(n), 'log maximum area with zero spread', atol=1e-9)
        return
    rms = np.sqrt(np.mean(z**2))/sig
    tol = 6.5/np.sqrt(2*n)
    ctx.margin('spread of ln(max area) over configured spread', rms)
    ctx.ok(abs(rms/np.log(10)-1) < tol, f'the maximum areas spread by {rms*sig/np.log(10):.4f} dex instead of {sig} dex (n = {n})', spec=s)
    normal(ctx, z/sig/np.log(10), 'log maximum area', spec=s)


def sample(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s, g = make(rng, q, radius)
    if rng.random() < .7:
        s2 = dict(s, sigma=float(gen.pick(rng, [.1, .3, .6, 1.])))
        s, g = make(rng, q, radius, **s2)
    n = 700*(4 if ctx.thorough else 1)
    sp, left = [], n
    while left > 0:
        k = min(left, int(gen.pick(rng, [1, 2, 50, 350])))
        new = g.generate_spots(k)
        ctx.ok(len(new) == k, f'{len(new)} spots generated instead of {k}')
        sp += list(new)
        left -= k
    x = [judge_fixed(ctx, a, s, g) for a in sp]
    col = {k: np.array([v[k] for v in x], float) for k in ('lat', 'lon', 'area_max', 'ratio')}
    judge_area_spread(ctx, np.log(col['area_max']/s['mean']), s)
    if s['sigma']:
        ctx.event('area samples tested')
    normal(ctx, col['ratio']-5, 'total-to-umbra area ratio', spec=s)
    ctx.event('ratio samples tested')
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    if s['dist'] == 'iso':
        uniform(ctx, (np.sin(np.radians(col['lat']))+1)/2, 'sine of latitude', spec=s)
        ctx.event('isotropic samples tested')
    else:
        d = ref.ks(col['lat'], lambda v: .5*norm.cdf((v-15)/5)+.5*norm.cdf((v+15)/5))
        ctx.ok(d < KS, f'latitudes are not the solar distribution (Kolmogorov sqrt(n) D = {d:.2f})', spec=s)
        h = np.sum(np.sign(col['lat']))/np.sqrt(n)
        ctx.ok(abs(h) < Z, f'hemispheres are not equally likely ({h:.1f} sigma)', spec=s)
        ctx.event('solar samples tested')
    if not s['sigma']:
        col.pop('area_max')
    independent(ctx, col, 'spots')
    ctx.key(s)
    ctx.sample(s)


def births(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    s, g = make(rng, q, radius)
    lam = float(gen.pick(rng, [.3, 1., 4., 15.]))
    per_day = g.get_n_spots_to_birth(1*u.day, radius*u.km)
    ctx.ok(np.isfinite(per_day) and per_day > 0, f'{per_day!r} spots expected per day', spec=s)
    t = lam/per_day
    reps = int(max(40, 350/lam))
    counts = []
    for _ in range(reps):
        new = g.birth_spots(q(t, 'time'), q(radius, 'len'))
        counts.append(len(new))
        for a in new:
            judge_fixed(ctx, a, s, g)
    c = np.array(counts)
    z = (c.sum()-lam*reps)/np.sqrt(lam*reps)
    ctx.ok(abs(z) < Z, f'{c.mean():.3f} spots born instead of {lam:.3f} ({z:.1f} sigma)', spec=s)
    disp = np.sum((c-lam)**2)/lam
    ctx.ok(abs(disp-reps) < Z*np.sqrt(2*reps+reps/lam)+20*(1+1/lam),
           f'variance of the number born is {disp/reps:.3f} times the Poisson one', spec=s)
    ctx.event('birth counts tested')
    ctx.key('b', s, lam)


def judge_mature(ctx, spots, s, g, radius, cov):
    omega_hi = omega_lo = 0.
    last_lo = 0.
    n = len(spots)
    for i, a in enumerate(spots):
        x = judge_fixed(ctx, a, s, g, mature=True)
        lo, hi = sorted((s['init'], x['area_max']))
        if s['d'] == 0 or s['g'] == 0:
            ctx.ok(lo*(1-1e-9) <= x['area'] <= hi*(1+1e-9),
                   f'static mature spot of {x["area"]!r} MSH, initial {s["init"]!r}, maximum {x["area_max"]!r}', spec=s)
            ctx.event('static mature spots judged')
        elif x['growing']:
            ctx.ok(s['init']*(1-1e-9) <= x['area'] <= x['area_max']*(1+1e-9),
                   f'growing mature spot of {x["area"]!r} MSH, initial {s["init"]!r}, maximum {x["area_max"]!r}', spec=s)
            ctx.event('evolving mature spots judged')
        else:
            ctx.ok(0 <= x['area'] <= x['area_max']*(1+1e-9), f'decaying mature spot of {x["area"]!r} MSH, maximum {x["area_max"]!r}', spec=s)
            ctx.event('evolving mature spots judged')
        th = ref.cap_radius(x['area']*ref.MSH_KM2, radius)
        a1, a2 = x['area']*ref.MSH_KM2/radius**2, np.pi*th**2
        last_lo = min(a1, a2)
        omega_hi += max(a1, a2)
        omega_lo += min(a1, a2)
    target = 4*np.pi*cov
    ctx.ok(omega_hi >= target*(1-1e-9), f'mature spots cover {omega_hi/4/np.pi!r} of the sphere, {cov!r} was asked for', spec=s, n=n)
    if n:
        ctx.ok(omega_lo-last_lo < target*(1+1e-9), f'mature spots: {(omega_lo-last_lo)/4/np.pi!r} of the sphere is reached '
               f'without the last one, {cov!r} was asked for', spec=s, n=n)
    else:
        ctx.ok(cov == 0, 'no mature spots', spec=s)
    ctx.event('stopping rule judged')


def mature(ctx, rng):
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    full = 4*np.pi*radius**2/ref.MSH_KM2
    mean = float(full*gen.loguni(rng, 3e-4, 1e-2))
    static = rng.random() < .4
    kw = dict(mean=mean, init=float(mean*gen.pick(rng, [.01, .1, .5])), sigma=float(gen.pick(rng, [0., .1, .3])),
              d=0. if static else float(mean*gen.loguni(rng, .02, 1)))
    if rng.random() < .1:
        kw.update(g=0.)
    s, g = make(rng, q, radius, **kw)
    cov = float(gen.pick(rng, [0., 1e-6, .01, .05, .2]))
    if rng.random() < .12:                 # a crowded star
        cov = float(gen.pick(rng, [.05, .3, .5, .8]))
        cov = min(cov, 400*mean/full)
        ctx.event('crowded mature populations')
    else:
        cov = min(cov, 60*mean/full)
    if rng.random() < .5:
        new = g.generate_mature_spots(cov, q(radius, 'len'))
    else:
        spec = gen.star(rng, nspots=0, nfac=0)
        spec.update(radius=radius, grid=s['grid'])
        st = gen.mk_star(spec, q, spot_generator=g)
        st.generate_mature_spots(cov)
        new = list(st.spots.spots)
        ctx.ok(np.all([gen.spot_shape(a) == st.gridmaker.zeros().shape for a in new]), "mature spots are not on the star's grid")
    judge_mature(ctx, new, s, g, radius, cov)
    ctx.event('mature populations judged')
    if new:
        ctx.key('m', s, cov)


def ages(ctx, rng):
    """with no spread in area every mature spot has the same life, and its area tells its age"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    full = 4*np.pi*radius**2/ref.MSH_KM2
    mean = float(full*2e-4)
    s, g = make(rng, gen.CANONICAL, radius, mean=mean, init=mean*float(rng.uniform(.05, .5)), sigma=0.,
                d=float(mean*(gen.loguni(rng, .05, .5) if rng.random() < .7 else gen.loguni(rng, 5e-4, .05))))
    new = g.generate_mature_spots(float(rng.uniform(.03, .05)), radius*u.km)
    life = float(g.mean_lifetime.to_value(u.day))
    k = np.log1p(s['g'])
    ttm = np.log(mean/s['init'])/k
    age = []
    for a in new:
        x = judge_fixed(ctx, a, s, g, mature=True)
        age.append(np.log(x['area']/s['init'])/k if x['growing'] else ttm+(mean-x['area'])/s['d'])
    age = np.array(age)
    ctx.ok(np.all((age >= -1e-6*life) & (age <= life*(1+1e-6))), f'a mature spot is {age.max():.3f} d old, the mean lifetime is {life:.3f} d', spec=s)
    d = ref.ks(age/life, lambda v: np.clip(v, 0, 1))
    ctx.ok(d < KS, f'ages of mature spots are not uniform over the mean lifetime (sqrt(n) D = {d:.2f}, n = {len(age)})', spec=s)
    ctx.margin('kolmogorov: ages', d)
    ctx.event('mature ages tested')
    ctx.key('a', s)


def spread_ages(ctx, rng):
    """with a spread in area the age is the same share of the mean lifetime, whatever the spot's own life is"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    full = 4*np.pi*radius**2/ref.MSH_KM2
    mean = float(full*2e-4)
    s, g = make(rng, gen.CANONICAL, radius, mean=mean, init=mean*float(rng.uniform(.01, .04)), sigma=float(rng.uniform(.15, .4)),
                d=float(mean*(gen.loguni(rng, .05, .5) if rng.random() < .7 else gen.loguni(rng, 5e-4, .05))))
    new = g.generate_mature_spots(float(rng.uniform(.15, .24)), radius*u.km)
    life = float(g.mean_lifetime.to_value(u.day))
    k = np.log1p(s['g'])
    share, size = [], []
    for a in new:
        x = judge_fixed(ctx, a, s, g, mature=True)
        if x['area_max'] <= s['init']:
            continue
        ttm = np.log(x['area_max']/s['init'])/k
        if x['growing']:
            age = np.log(x['area']/s['init'])/k
        elif x['area'] > 0:
            age = ttm+(x['area_max']-x['area'])/s['d']
        else:       # gone: older than its own life, which is all that can be seen
            own = ttm+x['area_max']/s['d']
            ctx.ok(own <= life*(1+1e-6), f'a mature spot that lives {own:.3f} d is gone, the mean lifetime is {life:.3f} d', spec=s)
            age = rng.uniform(min(own, life), life)
        ctx.ok(-1e-6*life <= age <= life*(1+1e-6), f'a mature spot is {age:.3f} d old, the mean lifetime is {life:.3f} d', spec=s)
        share.append(age/life)
        size.append(x['area_max'])
    share, size = np.array(share), np.array(size)
    for sub, what in ((np.full(len(size), True), 'mature spots'), (size > np.median(size), 'the larger mature spots'), (size <= np.median(size), 'the smaller mature spots')):
        d = ref.ks(share[sub], lambda v: np.clip(v, 0, 1))
        ctx.ok(d < KS, f'ages of {what} are not uniform over the mean lifetime (sqrt(n) D = {d:.2f}, n = {sub.sum()})', spec=s)
        ctx.margin('kolmogorov: ages', d)
    ctx.event('mature ages tested')
    ctx.key('sa', s)


def ends(ctx, rng):
    """a large population at once, and many short birth periods: the ends of the distributions"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s, g = make(rng, gen.CANONICAL, radius, sigma=float(gen.pick(rng, [.3, .7, 1.])), grid=12)
    sp = g.generate_spots(12000)
    ctx.ok(len(sp) == 12000, f'{len(sp)} spots generated instead of 12000')
    tails(ctx, np.array([a.total_area_over_umbra_area for a in sp], float)-5, 'total-to-umbra area ratio', spec=s)
    tails(ctx, np.log10(np.array([a.area_max.to_value(gen.MSH) for a in sp])/s['mean'])/s['sigma'], 'log maximum area', spec=s)
    normal(ctx, np.log10(np.array([a.area_max.to_value(gen.MSH) for a in sp])/s['mean'])/s['sigma'], 'log maximum area', spec=s)
    conditional(ctx, dict(lat=np.array([a.coords['lat'].to_value(u.deg) for a in sp]), lon=np.array([a.coords['lon'].to_value(u.deg) for a in sp]),
                          area=np.array([a.area_max.to_value(gen.MSH) for a in sp]), ratio=np.array([a.total_area_over_umbra_area for a in sp], float)), 'spots')
    lam = float(gen.pick(rng, [.1, .3, .9]))
    t = gen.CANONICAL(lam/g.get_n_spots_to_birth(1*u.day, radius*u.km), 'time')
    r = gen.CANONICAL(radius, 'len')
    poisson_law(ctx, [len(g.birth_spots(t, r)) for _ in range(2000)], lam, 'spots born', spec=s)
    ctx.key('e', s)


def singles(ctx, rng):
    """spots generated one at a time, as the mature population is, and very many at once, as after a long time"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s, g = make(rng, gen.CANONICAL, radius, sigma=.3, grid=12)
    if rng.random() < .5:
        sp = [g.generate_spots(1) for _ in range(1300)]
        ctx.ok(all(len(a) == 1 for a in sp), 'more or less than one spot generated')
        sp = [a[0] for a in sp]
        ctx.event('lone spots', len(sp))
    else:
        lam = gen.loguni(rng, 200, 2500)
        sp = g.birth_spots(lam/g.get_n_spots_to_birth(1*u.day, radius*u.km)*u.day, radius*u.km)
        ctx.ok(abs(len(sp)-lam) < Z*np.sqrt(lam), f'{len(sp)} spots born instead of {lam:.0f}', spec=s)
        ctx.event('spots of large batches', len(sp))
    x = [judge_fixed(ctx, a, s, g) for a in sp]
    col = {k: np.array([v[k] for v in x], float) for k in ('lat', 'lon', 'area_max', 'ratio')}
    normal(ctx, np.log10(col['area_max']/s['mean'])/s['sigma'], 'log maximum area', spec=s)
    normal(ctx, col['ratio']-5, 'total-to-umbra area ratio', spec=s)
    uniform(ctx, col['lon']/360, 'longitude', spec=s)
    lat = (np.sin(np.radians(col['lat']))+1)/2 if s['dist'] == 'iso' else .5*norm.cdf((col['lat']-15)/5)+.5*norm.cdf((col['lat']+15)/5)
    uniform(ctx, lat, 'latitude', spec=s)
    independent(ctx, dict(col, order=np.arange(len(sp))), 'spots')
    ctx.key('1', s)


class Rare(np.random.Generator):
    """a caller's generator in which deviates far below the mean are common; everything else is as usual"""
    RATE = .3

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.coin = np.random.default_rng(seed+1)
        self.hits = 0

    def _spoil(self, z):
        z = np.array(z, float)
        hit = self.coin.random(z.shape) < self.RATE
        self.hits += int(hit.sum())
        z[hit] = -5.-np.abs(self.coin.normal(size=z.shape))[hit]
        return z[()]

    def standard_normal(self, size=None, **k):
        return self._spoil(super().standard_normal(size, **k))

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale)) or None
        return np.asarray(loc)+np.asarray(scale)*self.standard_normal(size)


def redrawn(ctx, rng, law=True):
    """area ratios that are not positive are drawn again, from the same generator"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    s, _ = make(rng, gen.CANONICAL, radius, sigma=.1, grid=12)
    seed = int(rng.integers(1 << 31))

    def run():
        g = gen.mk_spotgen(s, Rare(seed))
        out = []
        for k in range(160):
            n = 1+k % 4
            new = g.generate_spots(n)
            ctx.ok(len(new) == n, f'{len(new)} spots generated instead of {n}')
            out += [float(a.total_area_over_umbra_area) for a in new]
        return np.array(out), g.rng
    np.random.seed(int(rng.integers(1 << 31)))
    before = repr(np.random.get_state())
    x, r = run()
    ctx.ok(repr(np.random.get_state()) == before, 'drawing an area ratio again advanced a global random generator')
    ctx.ok(not law or np.all(np.isfinite(x) & (x > 0)), f'area ratio {x.min()!r}', spec=s)
    if r.hits:
        d = 0 if not law else ref.ks(x, lambda v: np.clip((norm.cdf(v-5)-norm.cdf(-5))/(1-norm.cdf(-5)), 0, 1))
        ctx.ok(d < KS, f'area ratios are not a normal distribution limited to positive values (sqrt(n) D = {d:.2f}, n = {len(x)})', spec=s)
        ctx.event('spots with ratios drawn again', len(x))
        np.random.seed(int(rng.integers(1 << 31)))
        y, _ = run()
        ctx.ok(np.array_equal(x, y), 'area ratios drawn again do not come from the generator', spec=s)
    ctx.key('rare', s)


def batches(ctx, rng):
    """the law does not depend on how many are made at a time"""
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    for k in [2, 3, 4, 5, int(rng.integers(6, 30))]:
        s, g = make(rng, gen.CANONICAL, radius, sigma=.3, grid=12)
        at = [g.get_coordinates(k) for _ in range(500)]
        lat, lon = (np.array([c[i].to_value(u.deg) for c in at], float) for i in (0, 1))
        ctx.ok(lat.shape == lon.shape == (500, k), f'coordinates of shape {lat.shape} instead of 500 times {k}')
        sp = [a for _ in range(-(-240//k)) for a in g.generate_spots(k)]
        for name, la, lo in (('positions', lat.ravel(), lon.ravel()),
                             ('positions of spots', np.array([a.coords['lat'].to_value(u.deg) for a in sp]), np.array([a.coords['lon'].to_value(u.deg) for a in sp]))):
            uniform(ctx, lo/360, f'longitude ({name}, {k} at a time)', spec=s)
            v = (np.sin(np.radians(la))+1)/2 if s['dist'] == 'iso' else .5*norm.cdf((la-15)/5)+.5*norm.cdf((la+15)/5)
            uniform(ctx, v, f'latitude ({name}, {k} at a time)', spec=s)
        normal(ctx, np.log10(np.array([a.area_max.to_value(gen.MSH) for a in sp])/s['mean'])/s['sigma'], f'log maximum area, {k} at a time', spec=s)
        normal(ctx, np.array([a.total_area_over_umbra_area for a in sp], float)-5, f'area ratio, {k} at a time', spec=s)
        # members of one batch are independent
        for i, j in ((0, 1), (0, k-1), (k-2, k-1)):
            if i != j:
                independent(ctx, dict(lat1=lat[:, i], lat2=lat[:, j], lon1=lon[:, i], lon2=lon[:, j]), f'spots of one batch of {k}')
        ctx.event('batch sizes tested')
        ctx.key('k', s, k)


WORKLOADS = [('sample', sample, 28, 300), ('births', births, 16, 200), ('mature', mature, 80, 1500), ('ages', ages, 10, 100), ('spread_ages', spread_ages, 10, 100), ('ends', ends, 4, 40),
             ('singles', singles, 10, 100), ('redrawn', redrawn, 8, 80), ('batches', batches, 4, 60)]
