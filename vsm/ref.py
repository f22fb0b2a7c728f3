"""Independent float64 reference model of the documented physics.

Nothing here calls the code under test; inputs are plain floats (radians, km, days, K) read off
public attributes.
"""
import numpy as np

RSUN_KM = 695700.0
REARTH_KM = 6378.1
AU_KM = 149597870.7
MSH_KM2 = 1e-6*0.5*4*np.pi*RSUN_KM**2
SIGMA_SB = 5.670374419e-8     # W m-2 K-4
FR = (1.00000, 1.94053, -0.175084, -2.24588, -1.12498)
FD = (0.689008, -1.60053, 0.302963, -0.278318)


# ---------------------------------------------------------------- sphere
def vec(lat, lon):
    return np.stack([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon),
                     np.sin(lat)+0*np.asarray(lon)], axis=-1)


def mu(lat, lon, lat0, lon0):
    """cosine of the angle from (lat0, lon0)"""
    return vec(lat, lon) @ vec(lat0, lon0)


def sep(lat1, lon1, lat2, lon2):
    """great-circle angle, accurate everywhere"""
    a, b = np.broadcast_arrays(vec(lat1, lon1), vec(lat2, lon2))
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a*b, axis=-1))


def ortho(lat, lon, lat0, lon0):
    x = np.cos(lat)*np.sin(lon-lon0)
    y = np.cos(lat0)*np.sin(lat) - np.sin(lat0)*np.cos(lat)*np.cos(lon-lon0)
    return x, y


def lens(d, r, R=1.0):
    """area common to two circles of radius r and R at distance d"""
    d = abs(d)
    if d >= r+R:
        return 0.0
    if d <= abs(R-r):
        return np.pi*min(r, R)**2
    # numerically stable half-angle form
    a1 = 2*np.arctan2(np.sqrt(max((r+R-d)*(d-(R-r)), 0)), np.sqrt(max((d+(R-r))*(d+r+R), 0)))
    a2 = 2*np.arctan2(np.sqrt(max((r+R-d)*(d+(R-r)), 0)), np.sqrt(max((d-(R-r))*(d+r+R), 0)))
    # a1: half-angle at the center of circle R, a2: at the center of circle r
    return R**2*(a1-np.sin(a1)*np.cos(a1)) + r**2*(a2-np.sin(a2)*np.cos(a2))


# ---------------------------------------------------------------- grids
def spiral(n):
    i = np.arange(n)
    golden = (1+5**0.5)/2
    return np.arcsin(1-2*(i+0.5)/n), np.mod(2*np.pi*i/golden, 2*np.pi)


def rect(nlat, nlon):
    lat = -np.pi/2 + np.pi*np.arange(nlat)/(nlat-1)
    lon = 2*np.pi*np.arange(nlon)/nlon
    lo, la = np.meshgrid(lon, lat, indexing='ij')
    return la, lo


def weights(lat):
    """area share of each element: 1-D arrays are spirals, 2-D rectangular"""
    if lat.ndim == 1:
        return np.full(lat.shape, 1/lat.size)
    w = np.clip(np.cos(lat), 0, None)
    return w/w.sum()


# ---------------------------------------------------------------- spots
def cap_radius(area, radius):
    """angular radius of the cap of that area (same units squared)"""
    return 2*np.arcsin(np.sqrt(np.clip(area/(4*np.pi*radius**2), 0, 1)))


def spot_age(area, growing, amax, g_day, d_day, t):
    """area and phase after t days; also the distance of t from the turning point"""
    if growing:
        k = np.log1p(g_day)
        ttm = np.inf if k == 0 else np.log(amax/area)/k
        if ttm > t:
            return area*np.exp(k*t), True, ttm-t
        return max(amax-d_day*(t-ttm), 0.0), False, t-ttm
    return max(area-d_day*t, 0.0), False, np.inf


def facula_age(r, growing, rmax, life, t):
    if growing:
        ttm = 0.5*life*np.log(rmax/r)
        if ttm > t:
            return r*np.exp(2*t/life), True, ttm-t
        return rmax*np.exp(-2*(t-ttm)/life), False, t-ttm
    return r*np.exp(-2*t/life), False, np.inf


# ---------------------------------------------------------------- flares
def template(x):
    """unit flare at (t-tpeak)/fwhm"""
    x = np.asarray(x, dtype=float)
    rise = FR[0]+FR[1]*x+FR[2]*x**2+FR[3]*x**3+FR[4]*x**4
    with np.errstate(over='ignore'):
        fall = FD[0]*np.exp(FD[1]*np.clip(x, 0, None))+FD[2]*np.exp(FD[3]*np.clip(x, 0, None))
    return np.where((x > -1) & (x <= 0), rise, np.where((x > 0) & (x < 20), fall, 0.0))


def template_cum(x):
    """integral of the template from -inf to x"""
    x = np.clip(np.asarray(x, dtype=float), -1, 20)

    def poly(y):
        return sum(c*y**(k+1)/(k+1) for k, c in enumerate(FR))
    xr = np.minimum(x, 0)
    xf = np.maximum(x, 0)
    return (poly(xr)-poly(-1.0)) + (FD[0]/FD[1]*(np.exp(FD[1]*xf)-1)
                                    + FD[2]/FD[3]*(np.exp(FD[3]*xf)-1))


TEMPLATE_TOTAL = float(template_cum(20.0))


def flare_peak_area_km2(energy_erg, teff, fwhm_day):
    timearea_m2s = energy_erg*1e-7/(SIGMA_SB*teff**4)
    return timearea_m2s/(TEMPLATE_TOTAL*fwhm_day*86400.0)*1e-6


# ---------------------------------------------------------------- granulation
def gran_cov(tau_hr, amp, period_hr):
    w = tau_hr/(np.sqrt(2)*period_hr)
    return amp/period_hr*np.exp(-w)*np.cos(w-np.pi/4)


# ---------------------------------------------------------------- statistics
def ks(sample, cdf):
    """Kolmogorov statistic sqrt(n)*D"""
    x = np.sort(np.asarray(sample, dtype=float))
    n = len(x)
    f = cdf(x)
    d = max(np.max(np.arange(1, n+1)/n - f), np.max(f-np.arange(n)/n))
    return np.sqrt(n)*d
