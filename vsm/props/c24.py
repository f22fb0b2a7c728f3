"""Resampling and plotting show the data that was given."""
import numpy as np
from astropy import units as u
from vspec_vsm.coordinate_grid import CoordinateGrid

from vsm import gen, ref

RULE = ('spiral grids of 1 to 1500 points and rectangular grids, resampled to display sizes of 2x2 to 40x60: constants, random data, '
        'single bright points and smooth fields, with and without units; and plots of stars with spots, '
        'faculae, transiting and eclipsed planets at all viewpoints and after ageing, with the arguments of every drawing call recorded. '
        'Distinct: a different grid, display or star; non-trivial: the data are not constant.')
NEED = {'resamplings judged': 150, 'constants judged': 40, 'bright points located': 100, 'smooth fields judged': 40,
        'pass-through judged': 30, 'plots judged': 20, 'plots with a transit judged': 8, 'plots on a given axis judged': 5,
        'rectangular plots judged': 8, 'limb-darkened plots judged': 8, 'fine displays judged': 6}
ASSUMPTIONS = ['smooth fields are reproduced to within two grid spacings times their gradient',
               'drawing is observed at the pcolormesh, contourf and imshow calls of the axes']


def axes_of(nlat, nlon):
    return -np.pi/2+np.pi*np.arange(nlat)/(nlat-1), 2*np.pi*np.arange(nlon)/nlon


def spiral(ctx, rng):
    n = int(gen.loguni(rng, 1, 1500))
    nlat, nlon = int(rng.integers(2, 25)), int(rng.integers(2, 40))
    g = CoordinateGrid.new(n)
    unit = gen.pick(rng, [u.K, u.dimensionless_unscaled, u.km, u.erg/u.s])
    info = dict(points=n, display=(nlat, nlon))

    def show(v):
        d = v if unit is u.dimensionless_unscaled else v*unit
        la, lo, out = g.display_grid(nlat, nlon, d)
        wla, wlo = axes_of(nlat, nlon)
        ctx.close(u.Quantity(la).value if not hasattr(la, 'unit') else la.to_value(u.rad), wla, 'display latitudes in radians', atol=1e-9, **info)
        ctx.close(u.Quantity(lo).value if not hasattr(lo, 'unit') else lo.to_value(u.rad), wlo, 'display longitudes in radians', atol=1e-9, **info)
        ctx.ok(out.unit == unit, f'data in {unit} come back in {out.unit}', **info)
        out = out.to_value(unit)
        ctx.ok(out.shape == (nlon, nlat), f'display of shape {out.shape} instead of (nlon, nlat) = {(nlon, nlat)}', **info)
        ctx.ok(np.all(np.isfinite(out)), f'{int(np.sum(~np.isfinite(out)))} display values are not finite', **info)
        ctx.event('resamplings judged')
        return out
    c = float(rng.uniform(-1e4, 1e4))
    ctx.close(show(np.full(n, c)), np.full((nlon, nlat), c), 'constant data', rtol=1e-9, **info)
    ctx.event('constants judged')
    a, b = rng.normal(size=n)*100, rng.normal(size=n)
    sa, sb = show(a), show(b)
    for v, s in ((a, sa), (b, sb)):
        ctx.ok(s.max() <= v.max()+1e-9*np.abs(v).max() and s.min() >= v.min()-1e-9*np.abs(v).max(), 'display leaves the range of the data', **info)
    x, y = float(rng.normal()), float(rng.normal())
    ctx.close(show(x*a+y*b), x*sa+y*sb, 'resampling is not linear', rtol=1e-7, atol=1e-7*(100*abs(x)+abs(y)), **info)
    # boolean masks are data too
    m = rng.random(n) < .5
    _, _, sm = g.display_grid(nlat, nlon, m)
    ctx.ok(np.all((sm.value >= 0) & (sm.value <= 1)), 'a resampled mask leaves [0,1]', **info)
    # places
    pla, plo = ref.spiral(n)
    la, lo = axes_of(nlat, nlon)
    LO, LA = np.meshgrid(lo, la, indexing='ij')
    ell = np.sqrt(4*np.pi/n)
    if n >= 30:
        for i in rng.integers(0, n, 3):
            e = np.zeros(n)
            e[i] = 1.
            s = show(e)
            d = ref.sep(LA, LO, pla[i], plo[i])
            ctx.ok(np.all(s[d > 6*ell] < 1e-3), f'a bright point at {np.degrees([pla[i], plo[i]])} shows up {np.degrees(d[s > 1e-3].max(initial=0)):.1f} degrees away', **info)
            near = d < .4*ell
            ctx.ok(np.all(s[near] > .1), f'a bright point at {np.degrees([pla[i], plo[i]])} does not show up there', **info)
            ctx.event('bright points located')
        w = rng.normal(size=3)
        w /= np.linalg.norm(w)
        s = show(ref.vec(pla, plo)@w)
        ctx.ok(np.abs(s-ref.vec(LA, LO)@w).max() < 2*ell, f'a smooth field is off by {np.abs(s-ref.vec(LA, LO)@w).max():.3f}', **info)
        ctx.event('smooth fields judged')
    ctx.key(n, nlat, nlon)
    ctx.sample(info)


def fine(ctx, rng):
    """many points, or a fine display"""
    many = rng.random() < .5
    n = int(gen.loguni(rng, 2500, 6000) if many else gen.loguni(rng, 60, 200))
    nlat, nlon = (int(rng.integers(8, 20)), int(rng.integers(8, 30))) if many else gen.pick(rng, [(180, 90), (160, 320), (500, 100), (200, 400)])
    g = CoordinateGrid.new(n)
    pla, plo = ref.spiral(n)
    la, lo = axes_of(nlat, nlon)
    LO, LA = np.meshgrid(lo, la, indexing='ij')
    w = rng.normal(size=3)
    w /= np.linalg.norm(w)
    c = float(rng.uniform(10, 5000))
    a, b, s = g.display_grid(nlat, nlon, (c+ref.vec(pla, plo)@w)*u.K)
    s = s.to_value(u.K)
    info = dict(points=n, display=(nlat, nlon))
    ctx.ok(s.shape == (nlon, nlat) and np.all(np.isfinite(s)), f'display of shape {s.shape}, or not finite', **info)
    off = np.abs(s-c-ref.vec(LA, LO)@w).max()
    ctx.ok(off < 2*np.sqrt(4*np.pi/n)+1e-9*c, f'a smooth field is off by {off:.3f}', **info)
    ctx.event('fine displays judged')
    ctx.key('fine', n, nlat, nlon)


def rect(ctx, rng):
    nlat, nlon = int(rng.integers(2, 40)), int(rng.integers(2, 60))
    g = CoordinateGrid.new((nlat, nlon))
    unit = gen.pick(rng, [u.K, u.dimensionless_unscaled, u.km])
    d = rng.normal(size=(nlon, nlat))
    la, lo, out = g.display_grid(nlat, nlon, d if unit is u.dimensionless_unscaled else d*unit)
    wla, wlo = axes_of(nlat, nlon)
    ctx.close(np.asarray(la), wla, 'display latitudes in radians', atol=1e-9)
    ctx.close(np.asarray(lo), wlo, 'display longitudes in radians', atol=1e-9)
    ctx.ok(out.unit == unit, f'data in {unit} come back in {out.unit}')
    ctx.ok(np.array_equal(out.value, d), 'data on a rectangular grid are changed by the display')
    ctx.event('pass-through judged')
    ctx.key('r', nlat, nlon)


class Recorder:
    """records the drawing calls on every map axis while active; the real calls still happen"""

    def __enter__(self):
        from cartopy.mpl.geoaxes import GeoAxes
        self.calls, self.cls, self.old = [], GeoAxes, {}
        for name in ('pcolormesh', 'contourf', 'imshow'):
            self.old[name] = orig = getattr(GeoAxes, name)

            def wrap(ax, *a, _name=name, _orig=orig, **k):
                self.calls.append((_name, ax, a, k))
                return _orig(ax, *a, **k)
            setattr(GeoAxes, name, wrap)
        return self

    def __exit__(self, *_):
        for name, f in self.old.items():
            setattr(self.cls, name, f)


def plot(ctx, rng):
    import matplotlib.pyplot as plt
    import cartopy.crs as ccrs
    spec = gen.star(rng, nspots=int(gen.pick(rng, [0, 1, 3])), nfac=int(gen.pick(rng, [0, 1, 2])))
    rectangular = bool(rng.random() < .5)
    nlat, nlon = int(rng.integers(6, 14)), int(rng.integers(8, 20))
    spec['grid'] = (nlat, nlon) if rectangular else int(gen.loguni(rng, 60, 400))
    q = gen.Units(rng) if rng.random() < .5 else gen.CANONICAL
    st = gen.mk_star(spec, q)
    if rng.random() < .5:
        st.age(q(gen.loguni(rng, .01, 5), 'time'))
    la, lo = gen.view(rng, spec)
    la = float(np.clip(la, -89.9, 89.9))
    p = gen.planet(rng, spec['radius']) if rng.random() < .75 else None
    if p is not None and rng.random() < .7:
        p.update(phase=180., inc=90., rp=float(spec['radius']*gen.pick(rng, [.3, .6])))
    kw = {} if p is None else gen.mask_kw(p, q)
    given = rng.random() < .35
    ax = None
    if given:
        fig, ax = plt.subplots(subplot_kw={'projection': ccrs.Orthographic(central_latitude=10, central_longitude=33)})
    if rng.random() < .4:
        kw.update(vmin=float(gen.pick(rng, [2000., 0., 3100.])), vmax=float(rng.uniform(4000, 7000)))
        if rng.random() < .4:
            kw.pop(gen.pick(rng, ['vmin', 'vmax']))
    info = dict(star=spec, view=(la, lo), planet=p)
    Q = (q(la, 'angle'), q(lo, 'angle'))
    try:
        with Recorder() as r:
            st.plot_surface(*Q, ax=ax, nlat=nlat, nlon=nlon, **kw)
    finally:
        plt.close('all')
    names = [c[0] for c in r.calls]
    ctx.ok('pcolormesh' in names, f'the surface is not drawn (calls: {names})', **info)
    if given:
        ctx.ok(all(c[1] is ax for c in r.calls), 'drawing went to another axis than the given one', **info)
        ctx.event('plots on a given axis judged')
    _, axis, a, k = r.calls[names.index('pcolormesh')]
    proj = axis.projection
    ctx.close(proj.proj4_params['lat_0'], la, 'central latitude of the plot', atol=1e-6, **info)
    ctx.close(np.cos(np.radians(proj.proj4_params['lon_0']-lo)), 1, 'central longitude of the plot', atol=1e-9, **info)
    wla, wlo = axes_of(nlat, nlon)
    # what was drawn where
    drawn = np.asarray(a[2], float)
    ctx.close(np.asarray(a[0], float), np.degrees(wlo), 'longitudes of the plot', atol=1e-6)
    ctx.close(np.asarray(a[1], float), np.degrees(wla), 'latitudes of the plot', atol=1e-6)
    ctx.ok(isinstance(k.get('transform'), ccrs.PlateCarree), 'the surface is not drawn in longitude and latitude')
    mapped = st.add_faculae_to_map(*Q)
    _, _, want = st.gridmaker.display_grid(nlat, nlon, mapped)
    ctx.close(drawn, want.to_value(u.K).T, 'the drawn surface is not the surface map with faculae', rtol=1e-9, **info)
    for lim in ('vmin', 'vmax'):
        ctx.ok(k.get(lim) == kw.get(lim), f'color limit {lim} is {k.get(lim)}, asked for {kw.get(lim)}', **info)
    # without a planet the default is an Earth at 1 AU, not in transit
    cov, _ = st.get_transit_mask(*Q, **gen.mask_kw(p if p is not None else gen.NO_PLANET))
    _, _, cov = st.gridmaker.display_grid(nlat, nlon, cov)
    half = np.asarray(cov.value > .5).T
    sure = np.abs(cov.value.T-.5) > 1e-9
    if 'contourf' in names:
        _, _, a, k = r.calls[names.index('contourf')]
        m = np.asarray(a[2], float)
        ctx.ok(m.shape == half.shape, f'planet mask of shape {m.shape}', **info)
        black = np.isfinite(m) & (m > .5)
        ctx.ok(np.array_equal(black[sure], half[sure]), 'the black pixels are not the ones more than half covered', **info)
        ctx.close(np.asarray(a[0], float), np.degrees(wlo), 'longitudes of the planet mask', atol=1e-6)
        ctx.close(np.asarray(a[1], float), np.degrees(wla), 'latitudes of the planet mask', atol=1e-6)
        if half.any():
            s = r.calls[names.index('pcolormesh')][3].get('zorder', 0)
            ctx.ok(k.get('zorder', 0) > s, 'the planet is drawn below the surface', **info)
    else:
        ctx.ok(not half.any(), 'the planet is not drawn', **info)
    if half.any():
        ctx.event('plots with a transit judged')
    ctx.ok('imshow' in names or (spec['u1'] == 0 and spec['u2'] == 0), 'the limb darkening is not drawn', **info)
    if 'imshow' in names:
        _, _, a, k = r.calls[names.index('imshow')]
        alpha = np.asarray(k['alpha'], float)
        LO, LA = np.meshgrid(wlo, wla)
        m = ref.mu(LA, LO, np.radians(la), np.radians(lo))
        I = np.where(m < 0, 0, 1-spec['u1']*(1-m)-spec['u2']*(1-m)**2)
        ok = np.abs(m) > 1e-9
        ctx.ok(alpha.shape == m.shape, f'shading of shape {alpha.shape}', **info)
        # a point exactly on the limb may count or not for the brightest one
        edge = 1-spec['u1']-spec['u2'] if np.any(~ok) else 0
        c = min((I[ok].max(), max(I[ok].max(), edge)), key=lambda v: np.abs(alpha-(1-I/v))[ok].max())
        ctx.close(alpha[ok], (1-I/c)[ok], 'shading is not the limb darkening', atol=1e-6, **info)
        ctx.ok(tuple(k.get('extent')) == (0, 360, -90, 90) and k.get('origin') == 'lower', 'shading is not placed on the surface')
        ctx.event('limb-darkened plots judged')
    ctx.event('plots judged')
    if rectangular:
        ctx.event('rectangular plots judged')
    ctx.key('p', ctx.current[1])
    ctx.sample(info)


WORKLOADS = [('spiral', spiral, 90, 1500), ('rect', rect, 60, 400), ('plot', plot, 40, 500), ('fine', fine, 6, 60)]
