"""Comparing two runs of the same scenario (other units, rotated, mirrored, restarted)."""
import numpy as np
from astropy import units as u

from . import gen, judges, ref


def generic(spec, rng):
    """move exact ties (a radius equal to its minimum, a contrast that rounds either way) off the edge"""
    for s in spec['spots']:
        if s['area_max'] < s['area']*1.001:
            s['area_max'] = s['area']*1.01
        full = 4*np.pi*spec['radius']**2/ref.MSH_KM2
        if s['area_max'] > .98*full:
            s['area'], s['area_max'] = .5*full, .6*full
    for f in spec['faculae']:
        if abs(f['fmin']-f['r']) < 1e-3*f['r']:
            f['fmin'] = f['r']*.9
        if f['rmax'] < f['r']*1.002:
            f['rmax'] = f['r']*1.01
        settle(f)
    return spec


def settle(f):
    """contrasts of the current radius are not halfway between two kelvin"""
    for _ in range(8):
        w, fl = gen.facula_contrasts(f)
        a, b = abs(w-np.floor(w)-.5), abs(fl-np.floor(fl)-.5)
        if a < 1e-3:
            f['wint'] += .013
        if b < 1e-3:
            f['fbase'] -= .013
        w, fl = gen.facula_contrasts(f)
        if abs(w-fl) < 1e-3:
            f['wint'] += 7.
    return f


def generic_view(rng):
    """no exact symmetry with any grid"""
    return float(np.degrees(np.arcsin(rng.uniform(-.99, .99)))), float(rng.uniform(0, 360))


def facula_slack(st, lat0, lon0):
    """disk share that may change sides because a facula's wall border falls on an element"""
    la, lo = judges.grid_of(st)
    m = ref.mu(la, lo, lat0, lon0)
    w = ref.weights(la)*np.clip(m, 0, None)*np.abs(judges.ld_poly(m, st.u1, st.u2))
    w = w/w.sum()
    tot = 0.
    for f in st.faculae.faculae:
        ins = f.map_pixels(st.radius)
        n = int(ins.sum())
        if not n:
            continue
        ang = ref.sep(lat0, lon0, judges.rad(f.lat), judges.rad(f.lon))
        fr = float(list(f.fractional_effective_area(ang*u.rad).values())[0].value)
        pos = fr*(n-1)
        close = abs(pos-round(pos)) < 1e-6*(1+n)
        ms = np.sort(m[ins])
        tie = n > 1 and np.min(np.diff(ms)) < 1e-9
        if close or tie:
            k = int(round(pos))
            edge = ms[max(0, min(n-1, k))]
            sel = ins & (np.abs(m-edge) < 1e-8)
            tot += float(w[sel].sum()) + 1e-12
    return tot


def coverage_same(ctx, a, b, slack, what, tol=1e-7, ctol=1e-6, **detail):
    for name, x, y, t in (('total', a[0], b[0], tol), ('occulted', a[1], b[1], ctol)):
        for k in set(x) | set(y):
            d = abs(float(x.get(k, 0))-float(y.get(k, 0)))
            ctx.ok(d <= t+slack, f'{what}: {name} coverage of {k} is {y.get(k)!r} instead of {x.get(k)!r} (slack {slack:.2g})',
                   **detail)
    ctx.ok(abs(float(a[2])-float(b[2])) <= 1e-6, f'{what}: planet fraction {b[2]!r} instead of {a[2]!r}', **detail)


def spot_edge(st, eps=1e-9):
    """True if an element lies on the edge of a spot or facula, to rounding"""
    la, lo = judges.grid_of(st)
    R = judges.km(st.radius)
    for s in st.spots.spots:
        z = gen.spot_state(s)
        d = ref.sep(np.radians(z['lat']), np.radians(z['lon']), la, lo)
        c = ref.cap_radius(z['area']*ref.MSH_KM2, R)
        if np.any(np.abs(d-c) < 3e-8) or np.any(np.abs(d-c/np.sqrt(z['ratio'])) < 3e-8):
            return True
    for f in st.faculae.faculae:
        z = gen.facula_state(f)
        d = ref.sep(np.radians(z['lat']), np.radians(z['lon']), la, lo)
        if np.any(np.abs(d-z['r']/R) < 3e-8):
            return True
    return False
