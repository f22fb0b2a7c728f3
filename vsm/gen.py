"""Scenario generator: plain-float specifications, and builders that turn them into real objects.

A specification holds canonical floats (deg, days, km, msh, K, erg, hours where stated), so the same
scenario can be rebuilt in other units, rotated, mirrored or restarted.
"""
import copy

import numpy as np
from astropy import units as u

from vspec_vsm.config import MSH
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.faculae import Facula, FaculaCollection, FaculaGenerator
from vspec_vsm.flares import FlareGenerator, StellarFlare
from vspec_vsm.granules import Granulation
from vspec_vsm.spots import SpotCollection, SpotGenerator, StarSpot
from vspec_vsm.star import Star
from . import ref

RS = ref.RSUN_KM

CANON = dict(angle=u.deg, area=MSH, len=u.km, time=u.day, rate=1/u.day, decay=MSH/u.day,
             slope=u.K/u.km, energy=u.erg, temp=u.K, hours=u.hr)
ALT = dict(angle=[u.deg, u.rad, u.arcmin, u.hourangle, u.arcsec], area=[MSH, u.km**2, u.m**2, u.R_sun**2, u.cm**2, u.R_earth**2],
           len=[u.km, u.m, u.R_sun, u.R_earth, u.AU, u.cm, u.R_jup], time=[u.day, u.hr, u.s, u.min, u.yr, u.ms, u.week],
           rate=[1/u.day, 1/u.hr, 1/u.s, 1/u.min, 1/u.yr],
           decay=[MSH/u.day, u.km**2/u.s, MSH/u.hr, u.m**2/u.day],
           slope=[u.K/u.km, u.K/u.m, u.K/u.R_earth], energy=[u.erg, u.J, u.eV, u.GJ],
           temp=[u.K], hours=[u.hr, u.day, u.s, u.min, u.yr, u.week, u.ms])


class Units:
    """Turns a canonical float into a Quantity, in the canonical or a random unit of that kind."""

    def __init__(self, rng=None):
        self.rng = rng

    def __call__(self, value, kind):
        q = np.asarray(value, dtype=float)*CANON[kind] if np.ndim(value) else float(value)*CANON[kind]
        if self.rng is None:
            return q
        unit = ALT[kind][int(self.rng.integers(len(ALT[kind])))]
        return q.to(unit)


CANONICAL = Units()


# ------------------------------------------------------------------ random scalars
def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def some(rng, seq, n):
    return [seq[int(i)] for i in rng.permutation(len(seq))[:n]]


def loguni(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def lat(rng):
    k = rng.random()
    if k < 0.12:
        return float(pick(rng, [0., 90., -90., 45., -45., 30., -60., 89.9999, -89.999, 89.7, -89.55, 88.9]))
    if k < 0.3:
        return float(rng.uniform(-90, 90))
    return float(np.degrees(np.arcsin(rng.uniform(-1, 1))))


def lon(rng):
    k = rng.random()
    if k < 0.15:
        return float(pick(rng, [0., 360., 180., 90., 270., -90., 359.9999, 720., -180., 1e-6]))
    if k < 0.3:
        return float(rng.uniform(-720, 1080)) if k > 0.17 else float(pick(rng, [-1, 1]))*loguni(rng, 720, 2e4)
    return float(rng.uniform(0, 360))


def grid(rng, big=False, kind=None):
    kind = kind or pick(rng, ['spiral', 'rect'])
    if kind == 'spiral':
        return int(loguni(rng, 60, 6000 if big else 1500))
    if big:
        return (int(rng.integers(20, 90)), int(rng.integers(30, 150)))
    return (int(rng.integers(4, 36)), int(rng.integers(4, 60)))


def full_grid(rng):
    """as fine as the default grid"""
    k = rng.random()
    if k < .2:
        return (500, 1000)
    if k < .5:
        return (int(rng.integers(150, 400)), int(rng.integers(250, 800)))
    return int(loguni(rng, 2e4, 1.5e5))


def limbdark(rng):
    """coefficients with a non-negative intensity everywhere on the disk"""
    k = rng.random()
    if k < 0.3:
        return 0.0, 0.0
    if k < 0.4:
        return float(pick(rng, [1.0, 0.5, -0.3])), 0.0
    if k < 0.48:
        return 0.0, float(pick(rng, [0.6, -0.4, 0.9, 0.05]))
    while True:
        u1, u2 = float(rng.uniform(-0.8, 1.6)), float(rng.uniform(-0.8, 0.9))
        if k < .6:
            u1, u2 = float(rng.uniform(-2, 2)), float(rng.uniform(-2, 1.9))
        m = np.linspace(0, 1, 201)
        if np.all(1-u1*(1-m)-u2*(1-m)**2 >= 0.0):
            return u1, u2


# ------------------------------------------------------------------ specifications
def spot(rng, radius_km, teff=None, big=True):
    full = 4*np.pi*radius_km**2/ref.MSH_KM2
    k = rng.random()
    frac = loguni(rng, 1e-6, 1e-3) if k < 0.15 else loguni(rng, 1e-3, 0.05) if k < 0.75 \
        else rng.uniform(0.05, 0.45) if k < 0.95 else rng.uniform(0.45, 0.97)
    if not big:
        frac = min(frac, 0.1)
    area = float(frac*full)
    teff = teff or 3300.
    tu = float(np.round(rng.uniform(2000, teff*1.1), int(rng.integers(0, 4))))
    if rng.random() < 0.5:
        tu = float(pick(rng, [2500., 2600., 2700.]))
    tp = tu if rng.random() < 0.1 else float(max(tu, np.round(rng.uniform(tu, max(tu+5, teff*1.1)), 1)))
    if rng.random() < 0.08:
        tp = max(tu, teff)
    growing = bool(rng.random() < 0.6)
    amax = area*float(pick(rng, [1., 1.0001, 1.5, 3., 10.])) if growing else area*float(rng.uniform(1, 3))
    amax = float(min(amax, max(area, 0.97*full)))
    return dict(lat=lat(rng), lon=lon(rng), area=area, area_max=amax, tu=tu, tp=tp,
                ratio=float(rng.uniform(1, 9)) if rng.random() < .75 else float(pick(rng, [5., 5., 1., 1.02, 12., 40.])), growing=growing,
                g=float(pick(rng, [0., 0.52, 1.83, 0.05, 5.])),
                d=float(area*pick(rng, [0., 0.02, 0.1, 0.5, 3.])))


def facula(rng, radius_km, big=True):
    ang = loguni(rng, 0.01, 1.2 if big else 0.4) if rng.random() < .93 else float(rng.uniform(1.2, 1.53)) if big else loguni(rng, 2e-4, .01)
    r = float(ang*radius_km)
    growing = bool(rng.random() < 0.6)
    rmax = r*float(pick(rng, [1., 1.001, 1.5, 3., np.e**2])) if growing else r*float(rng.uniform(1, 5))
    fmin = float(pick(rng, [0.0, r*0.5, r*0.999, r, r*1.5, r*20]))
    return dict(lat=lat(rng), lon=lon(rng), rmax=rmax, r=r, depth=float(r*loguni(rng, 0.02, 5)),
                life=loguni(rng, 0.05, 30), fslope=float(pick(rng, [0., -20./r, 30./r])), fmin=fmin,
                fbase=float(np.round(rng.uniform(-400, -60), 2)),
                wslope=float(pick(rng, [0., 20./r])), wint=float(np.round(rng.uniform(5, 400), 2)),
                growing=growing)


def facula_contrasts(f):
    """(wall, floor) contrast of a facula specification, in K"""
    return f['wslope']*f['r']+f['wint'], (f['r']-f['fmin'])*f['fslope']+f['fbase']


def alike(rng, f):
    """wall and floor that are the same to the whole kelvin, though not equal"""
    w, fl = facula_contrasts(f)
    a, b = rng.uniform(-.45, .45, 2)
    f['wint'] += float(round(w)+a-w)
    f['fbase'] += float(round(w)+b-fl)


def star(rng, nspots=None, nfac=None, big_grid=False, kind=None, big=True):
    k = rng.random()      # dwarfs; the Sun; anything from a white dwarf to a giant
    radius = float(loguni(rng, 0.1, 2.0)*RS) if k < 0.75 else RS if k < .9 else float(loguni(rng, 0.008, 80)*RS)
    teff = float(pick(rng, [3000., 3300., 2990.5, 3412.345, 5778., 2400.])) if rng.random() < .7 \
        else float(rng.uniform(2350, 6500)) if rng.random() < .6 else float(loguni(rng, 6500, 4e4))
    u1, u2 = limbdark(rng)
    ns = int(pick(rng, [0, 1, 2, 3, 5, 8])) if nspots is None else nspots
    nf = int(pick(rng, [0, 0, 1, 2, 4])) if nfac is None else nfac
    if nspots is None and nfac is None and rng.random() < .02:      # a crowd
        ns, nf = (int(rng.integers(30, 80)), nf) if rng.random() < .5 else (ns, int(rng.integers(20, 50)))
    facs = []
    while len(facs) < nf:
        f = facula(rng, radius, big=big)
        if rng.random() < .05:
            alike(rng, f)
        w, fl = facula_contrasts(f)
        if abs(w-fl) > 1e-3:
            facs.append(f)
    sp = [spot(rng, radius, teff, big=big) for _ in range(ns)]
    if ns > 1 and rng.random() < 0.3:      # pile up
        for s in sp[1:]:
            s['lat'], s['lon'] = sp[0]['lat'], sp[0]['lon'] + float(pick(rng, [0, 5, 360]))
    gran = None
    if rng.random() < 0.6:
        gran = dict(mean=float(rng.uniform(0, 1)) if rng.random() < .85 else 0., amp=float(pick(rng, [0., 0.01, 0.2])),
                    period=float(loguni(rng, 0.5, 200)), dteff=float(pick(rng, [0., 100., 150.5, 300., -50., 700.])),
                    seed=int(rng.integers(1, 1 << 30)))
    return dict(teff=teff, radius=radius, period=float(loguni(rng, 0.3, 60)),
                grid=grid(rng, big_grid, kind), u1=u1, u2=u2, spots=sp, faculae=facs, gran=gran)


def view(rng, spec=None):
    la, lo = lat(rng), lon(rng)
    if spec is not None and rng.random() < 0.4:
        f = spec['spots']+spec['faculae']
        if f:
            f = pick(rng, f)
            la, lo = f['lat'], f['lon']
            k = rng.random()
            if k < 0.25:
                la, lo = -la, lo+180
            elif k < 0.5:
                lo += 90
    return la, lo


def planet(rng, radius_km):
    """somewhere on its orbit, often in or near transit or eclipse"""
    rp = float(radius_km*pick(rng, [0.02, 0.08, 0.15, 0.3, 0.6, 0.99, loguni(rng, .002, .02)]))
    a = float(radius_km*(loguni(rng, 1.05, 60) if rng.random() < .85 else loguni(rng, 60, 5000)))
    base = float(pick(rng, [180., 180., 180., 0., 360., 90., 270., -180., 540.]))
    k = rng.random()
    if k < 0.2:
        ph = base
    else:
        half = np.degrees(min(1.5, (1+rp/radius_km)/(a/radius_km)))
        ph = base+float(rng.uniform(-1.3, 1.3))*half
    if k > 0.9:
        ph = float(rng.uniform(-720, 720))
    imp = float(rng.uniform(-1.2, 1.2)) if rng.random() < .7 else 0.
    c = np.clip(imp*radius_km/a, -1, 1)
    inc = float(np.degrees(np.arccos(c)))
    return dict(a=a, rp=rp, phase=float(ph), inc=inc)


NO_PLANET = dict(a=ref.AU_KM, rp=ref.REARTH_KM, phase=90., inc=0.)


# ------------------------------------------------------------------ builders
def mk_spot(s, q=CANONICAL, gridmaker=None, grid_params=None):
    kw = dict(gridmaker=gridmaker) if grid_params is None else dict(grid_params=grid_params)
    return StarSpot(q(s['lat'], 'angle'), q(s['lon'], 'angle'), q(s['area_max'], 'area'),
                    q(s['area'], 'area'), q(s['tu'], 'temp'), q(s['tp'], 'temp'),
                    area_over_umbra_area=s['ratio'], is_growing=s['growing'],
                    growth_rate=q(s['g'], 'rate'), decay_rate=q(s['d'], 'decay'), **kw)


def mk_facula(f, q=CANONICAL, gridmaker=None, grid_params=None):
    kw = dict(gridmaker=gridmaker) if grid_params is None else dict(grid_params=grid_params)
    return Facula(lat=q(f['lat'], 'angle'), lon=q(f['lon'], 'angle'), r_max=q(f['rmax'], 'len'),
                  r_init=q(f['r'], 'len'), depth=q(f['depth'], 'len'), lifetime=q(f['life'], 'time'),
                  floor_teff_slope=q(f['fslope'], 'slope'), floor_teff_min_rad=q(f['fmin'], 'len'),
                  floor_teff_base_dteff=q(f['fbase'], 'temp'), wall_teff_slope=q(f['wslope'], 'slope'),
                  wall_teff_intercept=q(f['wint'], 'temp'), growing=f['growing'], **kw)


def mk_gran(g, q=CANONICAL):
    if g is None:
        return None
    return Granulation(g['mean'], g['amp'], q(g['period'], 'hours'), q(g['dteff'], 'temp'), seed=g['seed'])


def mk_star(spec, q=CANONICAL, order=None, via_add=False, feature_grid=None, **kw):
    """The real star. `feature_grid`: grid parameters the features are created with."""
    gm = CoordinateGrid.new(feature_grid if feature_grid is not None else spec['grid'])
    spots = [mk_spot(s, q, gm) for s in spec['spots']]
    facs = [mk_facula(f, q, gm) for f in spec['faculae']]
    first_s, first_f = ([], []) if via_add else (spots, facs)
    st = Star(q(spec['teff'], 'temp'), q(spec['radius'], 'len'), q(spec['period'], 'time'),
              SpotCollection(*first_s, gridmaker=gm), FaculaCollection(*first_f, gridmaker=gm),
              grid_params=spec['grid'], granulation=mk_gran(spec['gran'], q),
              u1=spec['u1'], u2=spec['u2'], **kw)
    if via_add:
        for s in spots:
            st.add_spot(s)
        for f in facs:
            st.add_fac(f)
    return st


def obs(la, lo, q=CANONICAL):
    return {'lat': q(la, 'angle'), 'lon': q(lo, 'angle')}


def planet_kw(p, q=CANONICAL):
    return dict(orbit_radius=q(p['a'], 'len'), planet_radius=q(p['rp'], 'len'),
                phase=q(p['phase'], 'angle'), inclination=q(p['inc'], 'angle'))


def mask_kw(p, q=CANONICAL):
    k = planet_kw(p, q)
    k['radius'] = k.pop('planet_radius')
    return k


def clone(spec):
    return copy.deepcopy(spec)


# ------------------------------------------------------------------ reading real objects back
def spot_state(s):
    """what a spot is, as canonical floats"""
    return dict(lat=float(s.coords['lat'].to_value(u.deg)), lon=float(s.coords['lon'].to_value(u.deg)),
                area=float(s.area_current.to_value(MSH)), area_max=float(s.area_max.to_value(MSH)),
                tu=float(s.teff_umbra.to_value(u.K)), tp=float(s.teff_penumbra.to_value(u.K)),
                ratio=float(s.total_area_over_umbra_area), growing=bool(s.is_growing),
                g=float(s.growth_rate.to_value(1/u.day)), d=float(s.decay_rate.to_value(MSH/u.day)))


def facula_state(f):
    return dict(lat=float(f.lat.to_value(u.deg)), lon=float(f.lon.to_value(u.deg)),
                rmax=float(f.r_max.to_value(u.km)), r=float(f.radius.to_value(u.km)),
                depth=float(f.depth.to_value(u.km)), life=float(f.lifetime.to_value(u.day)),
                fslope=float(f.floor_teff_slope.to_value(u.K/u.km)),
                fmin=float(f.floor_teff_min_rad.to_value(u.km)),
                fbase=float(f.floor_teff_base_dteff.to_value(u.K)),
                wslope=float(f.wall_teff_slope.to_value(u.K/u.km)),
                wint=float(f.wall_teff_intercept.to_value(u.K)), growing=bool(f.is_growing))


def star_state(st):
    """specification of the star as it is now"""
    g = st.granulation
    gran = None
    if g is not None:
        gran = dict(mean=float(g.params['mean']), amp=float(g.params['scale']),
                    period=float(g.params['period']), dteff=float(g.dteff.to_value(u.K)), seed=int(g.seed))
    return dict(teff=float(st.teff.to_value(u.K)), radius=float(st.radius.to_value(u.km)),
                period=float(st.period.to_value(u.day)), grid=st.grid_params, u1=st.u1, u2=st.u2,
                spots=[spot_state(s) for s in st.spots.spots],
                faculae=[facula_state(f) for f in st.faculae.faculae], gran=gran)


# ------------------------------------------------------------------ generators
def spotgen_spec(rng, radius_km, nmax=6, days=1.0):
    full = 4*np.pi*radius_km**2/ref.MSH_KM2
    sigma = float(pick(rng, [0., 0.1, 0.2, 0.4]))
    # even an extreme draw stays smaller than the star
    mean = float(full*min(loguni(rng, 1e-3, 3e-2), 0.9/10**(5.5*sigma)))
    return dict(mean=mean, sigma=sigma, tu=2500., tp=2700.,
                g=float(pick(rng, [0.52, 0.1, 1.83])), d=float(mean*loguni(rng, 0.02, 1.)),
                init=float(mean*pick(rng, [0.01, 0.1, 0.5])), dist=pick(rng, ['iso', 'solar']),
                cov=float(pick(rng, [0.01, 0.05, 0.2])), grid=grid(rng))


def mk_spotgen(s, rng, q=CANONICAL, grid_params=None):
    return SpotGenerator(q(s['mean'], 'area'), s['sigma'], q(s['tu'], 'temp'), q(s['tp'], 'temp'),
                         growth_rate=q(s['g'], 'rate'), decay_rate=q(s['d'], 'decay'),
                         init_area=q(s['init'], 'area'), distribution=s['dist'], coverage=s['cov'],
                         grid_params=s['grid'] if grid_params is None else grid_params, rng=rng)


def facgen_spec(rng, radius_km, small=False):
    """`small`: also faculae so small, or so long-lived, that a population of them is out of the question"""
    r = float(radius_km*loguni(rng, 0.03, 0.25))
    if small and rng.random() < .3:
        r = loguni(rng, 50, 5000)
    return dict(r=r, rsig=float(pick(rng, [0., 0.1, 0.2])), depth=float(r*loguni(rng, .05, 2)),
                life=loguni(rng, 0.2, 10) if not small or rng.random() < .8 else loguni(rng, 10, 300), lsig=float(pick(rng, [0., 0.1, 0.3])), fslope=0.,
                fmin=float(pick(rng, [0., r*0.3])), fbase=-100., wslope=0., wint=120.,
                cov=float(pick(rng, [0.005, 0.02, 0.1])), grid=grid(rng))


def mk_facgen(s, rng, q=CANONICAL, grid_params=None):
    return FaculaGenerator(q(s['r'], 'len'), s['rsig'], q(s['depth'], 'len'), q(s['life'], 'time'),
                           s['lsig'], q(s['fslope'], 'slope'), q(s['fmin'], 'len'), q(s['fbase'], 'temp'),
                           q(s['wslope'], 'slope'), q(s['wint'], 'temp'), s['cov'],
                           grid_params=s['grid'] if grid_params is None else grid_params, rng=rng)


def flaregen_spec(rng, rate=None):
    """`rate`: expected flares per day"""
    alpha = float(pick(rng, [-0.829, -0.6, -1.2, -0.9, rng.uniform(-3, -.3)]))
    emin = 10**float(rng.uniform(30, 34) if rng.random() < .7 else rng.uniform(25, 37))
    rate = rate if rate is not None else loguni(rng, 0.05, 20)
    beta = float(np.log10(rate)-alpha*np.log10(emin))
    return dict(tm=float(rng.uniform(6000, 12000)), ts=float(pick(rng, [0., 300., 800.])),
                fm=loguni(rng, 0.5, 24)/24, fs=float(pick(rng, [0., 0.1, 0.3])), alpha=alpha, beta=beta,
                emin=emin, cluster=int(pick(rng, [1, 2, 4, 2, 4, 30])))


def mk_flaregen(s, rng, q=CANONICAL):
    return FlareGenerator(q(s['tm'], 'temp'), q(s['ts'], 'temp'), q(s['fm'], 'time'), s['fs'],
                          alpha=s['alpha'], beta=s['beta'], min_energy=q(s['emin'], 'energy'),
                          cluster_size=s['cluster'], rng=rng)


def flare_spec(rng, span=3.0, since=0.0):
    """`since`: when the stretch of time the flare peaks in begins, days"""
    k = rng.random()
    energy = float(rng.uniform(29, 36)) if k < .85 else float(rng.uniform(22, 29)) if k < .92 else float(rng.uniform(36, 41))
    k = rng.random()
    teff = float(rng.uniform(4000, 15000)) if k < .85 else loguni(rng, 2500, 4000) if k < .92 else loguni(rng, 1.5e4, 6e4)
    return dict(fwhm=(loguni(rng, 0.05, 12) if rng.random() < .85 else loguni(rng, 0.01, 100))/24, energy=10**energy, lat=lat(rng),
                lon=lon(rng), teff=teff, tpeak=since+float(rng.uniform(0, span)))


def epoch(rng):
    """a time series need not begin at zero"""
    return 0. if rng.random() < .8 else float(pick(rng, [-1, 1, 1]))*loguni(rng, 1, 3000)


def mk_flare(s, q=CANONICAL):
    return StellarFlare(q(s['fwhm'], 'time'), q(s['energy'], 'energy'), q(s['lat'], 'angle'),
                        q(s['lon'], 'angle'), q(s['teff'], 'temp'), q(s['tpeak'], 'time'))


def spot_shape(sp, radius=7e5):
    """shape of the maps a spot makes"""
    shapes = {np.shape(m) for m in sp.map_pixels(radius*u.km).values()}
    return shapes.pop() if len(shapes) == 1 else shapes
