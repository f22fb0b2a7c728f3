"""Oracles: what each observed call must have returned, from the reference model."""
import math

import numpy as np
from astropy import units as u
from vspec_vsm.config import MSH

from . import gen, ref
from .core import Violation

DIMLESS = u.dimensionless_unscaled
BORDER = 1e-6         # radians: elements this close to an edge may go either way


def rad(q):
    return float(q.to_value(u.rad))


def km(q):
    return float(q.to_value(u.km))


def kelvin(q):
    return q.to_value(u.K)


def grid_of(holder):
    """(lat, lon) in radians of the holder's own grid"""
    la, lo = holder.gridmaker.grid()
    return np.asarray(la.to_value(u.rad), float), np.asarray(lo.to_value(u.rad), float)


def key(q):
    return f'{q:.2f}'


# ------------------------------------------------------------------ C01
def coverage_conserved(ctx, star, args, out, before=None):
    tot, cov, plf = out
    g = float(args['granulation_fraction'])
    ctx.event('coverage reports judged')
    ctx.ok(set(tot) == set(cov), 'temperatures of total and occulted coverage differ',
           total=tot, covered=cov)
    pk = key(star.teff)
    gk = key(star.teff-star.granulation.dteff)
    for k in (pk, gk):
        ctx.ok(k in tot, f'{k} is not among the reported temperatures', total=tot)
    vt = np.array([float(tot[k]) for k in tot])
    vc = np.array([float(cov[k]) for k in tot])
    ctx.ok(np.all(np.isfinite(vt)) and np.all(np.isfinite(vc)), 'coverage is not finite', total=tot, covered=cov)
    ctx.ok(np.all(vt >= -1e-12), 'negative coverage', total=tot)
    ctx.ok(abs(vt.sum()-1) < 1e-7, f'coverage adds up to {vt.sum()!r}', total=tot)
    ctx.ok(np.all(vc >= -1e-9), 'negative occulted coverage', covered=cov)
    ctx.ok(np.all(vc <= vt+1e-7), 'more occulted than there is', total=tot, covered=cov)
    ctx.ok(0 <= float(plf) <= 1, 'planet fraction outside [0,1]', pl_frac=plf)
    a0 = dict(args, granulation_fraction=0.0)
    t0, c0, p0 = star.calc_coverage(**a0)
    ctx.ok(set(t0) == set(tot), 'granulation changes the set of temperatures', with_g=tot, without=t0)
    for name, with_g, base in (('total', tot, t0), ('occulted', cov, c0)):
        want = dict(base)
        p = base[pk]
        want[pk] = p*(1-g)
        want[gk] = want[gk]+p*g
        for k in want:
            ctx.ok(abs(float(with_g[k])-float(want[k])) < 1e-7,
                   f'{name} coverage of {k} with granulation {g}: {with_g[k]!r}, expected {want[k]!r}',
                   photosphere=pk, granulation=gk, without=base, with_g=with_g)
    if g > 0:
        ctx.event('granulation splits judged')
    if vc.sum() > 0:
        ctx.event('occulted reports judged')
    ctx.ok(abs(float(plf)-float(p0)) < 1e-12, 'granulation changes the planet fraction')


# ------------------------------------------------------------------ C02
def ld_poly(mu, u1, u2):
    return np.where(mu < 0, 0., 1-u1*(1-mu)-u2*(1-mu)**2)


def coverage_reference(star, lat0, lon0, g, tmap, mask):
    """reference coverage per key from a temperature map and a transit mask"""
    la, lo = grid_of(star)
    m = ref.mu(la, lo, lat0, lon0)
    w = ref.weights(la)*np.clip(m, 0, None)*ld_poly(m, star.u1, star.u2)
    w = w/w.sum()
    t, c = {}, {}
    vals = kelvin(tmap)
    for v in np.unique(vals):
        k = key(v*u.K)
        sel = vals == v
        t[k] = t.get(k, 0)+w[sel].sum()
        c[k] = c.get(k, 0)+(w*mask)[sel].sum()
    pk = key(star.teff)
    gk = key(star.teff-star.granulation.dteff)
    for d in (t, c):
        d.setdefault(pk, 0.)
        d.setdefault(gk, 0.)
        p = d[pk]
        d[pk] = p*(1-g)
        d[gk] += p*g
    return t, c


def coverage_projected(ctx, star, args, out, before=None):
    obs = args['sub_obs_coords']
    lat0, lon0 = rad(obs['lat']), rad(obs['lon'])
    tmap = star.add_faculae_to_map(obs['lat'], obs['lon'])
    mask, _ = star.get_transit_mask(obs['lat'], obs['lon'], orbit_radius=args['orbit_radius'],
                                    radius=args['planet_radius'], phase=args['phase'],
                                    inclination=args['inclination'])
    t, c = coverage_reference(star, lat0, lon0, float(args['granulation_fraction']), tmap,
                              np.asarray(mask, float))
    ctx.event('coverage compared with the projected map')
    if len(t) > 2:
        ctx.event('coverage of several temperatures compared')
    for name, got, want in (('total', out[0], t), ('occulted', out[1], c)):
        ctx.ok(set(got) == set(want), f'{name}: temperatures {sorted(got)} instead of {sorted(want)}')
        for k in want:
            ctx.ok(abs(float(got[k])-want[k]) < 2e-7,
                   f'{name} coverage of {k} is {float(got[k])!r}, the projected share is {want[k]!r}',
                   lat0=lat0, lon0=lon0, u1=star.u1, u2=star.u2)


def ld_mask(extra):
    def judge(ctx, star, args, out, before=None):
        mu = np.asarray(before, float)
        want = ld_poly(mu, star.u1+extra, star.u2)
        ctx.event('limb-darkening masks judged')
        sure = np.abs(mu) > 1e-12
        ctx.close(np.asarray(out)[sure], want[sure], 'limb-darkening mask', rtol=1e-9, atol=1e-9,
                  u1=star.u1, u2=star.u2, extra=extra)
    return judge


def mu_values(ctx, star, args, out, before=None):
    la, lo = grid_of(star)
    ctx.event('mu arrays judged')
    ctx.close(out, ref.mu(la, lo, rad(args['lat0']), rad(args['lon0'])), 'cosine from disk center',
              rtol=0, atol=1e-9)


def avg_teff(ctx, star, args, out, before=None):
    t, _, _ = star.calc_coverage(args['sub_obs_coords'])
    num = sum(float(str(k).split()[0])**4*float(v) for k, v in t.items())
    den = sum(float(v) for v in t.values())
    want = (num/den)**0.25
    ctx.event('average temperatures judged')
    ctx.close(out.to_value(u.K), want, 'average effective temperature', rtol=5e-6)


# ------------------------------------------------------------------ C03
def spot_masks(spot, la, lo, radius_km):
    """(in spot, in umbra, ambiguous) on a grid"""
    r = ref.sep(la, lo, rad(spot.coords['lat']), rad(spot.coords['lon']))
    a = ref.cap_radius(float(spot.area_current.to_value(u.km**2)), radius_km)
    au = a/math.sqrt(float(spot.total_area_over_umbra_area))
    amb = (np.abs(r-a) < BORDER) | (np.abs(r-au) < BORDER)
    return r < a, r < au, amb


def spot_map_ref(spots, la, lo, radius_km, teff):
    out = np.full(la.shape, float(teff))
    amb = np.zeros(la.shape, bool)
    for s in spots:
        sp, um, am = spot_masks(s, la, lo, radius_km)
        out = np.where(sp, np.minimum(out, float(kelvin(s.teff_penumbra))), out)
        out = np.where(um, np.minimum(out, float(kelvin(s.teff_umbra))), out)
        amb |= am
    return out, amb


def spot_map(ctx, coll, args, out, before=None):
    la, lo = grid_of(coll)
    want, amb = spot_map_ref(coll.spots, la, lo, km(args['star_rad']), kelvin(args['star_teff']))
    got = kelvin(out)
    ctx.ok(got.shape == want.shape, f'map shape {got.shape}, grid {want.shape}')
    ctx.event('surface maps judged')
    n = int(np.sum(~amb & (want != float(kelvin(args['star_teff'])))))
    ctx.event('spotted elements judged', n)
    bad = ~amb & ~(np.abs(got-want) < 1e-6)
    bad &= ~(got == want)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f'element at lat {np.degrees(la[i]):.3f} lon {np.degrees(lo[i]):.3f} has {got[i]!r} K, '
                 f'the coolest spot there gives {want[i]!r} K ({int(bad.sum())} elements differ)',
                 spots=[gen.spot_state(s) for s in coll.spots])


def star_map(ctx, star, args, out, before=None):
    la, lo = grid_of(star)
    want, amb = spot_map_ref(star.spots.spots, la, lo, km(star.radius), kelvin(star.teff))
    got = kelvin(out)
    ctx.ok(got.shape == want.shape, f'map shape {got.shape}, grid {want.shape}')
    ctx.event('star maps judged')
    bad = ~amb & ~(np.abs(got-want) < 1e-6)
    ctx.ok(not bad.any(), f'{int(bad.sum())} elements of the star map differ from the coolest-wins rule',
           spots=[gen.spot_state(s) for s in star.spots.spots])


def spot_share(ctx, coll, args, out, before=None):
    la, lo = grid_of(coll)
    w = ref.weights(la)
    cov = np.zeros(la.shape, bool)
    amb = np.zeros(la.shape, bool)
    for s in coll.spots:
        a, b, c = spot_masks(s, la, lo, km(args['r_star']))
        cov |= a | b
        amb |= c
    lo_, hi_ = w[cov & ~amb].sum(), w[cov | amb].sum()
    ctx.event('spot coverages judged')
    out = float(u.Quantity(out).to_value(DIMLESS))
    ctx.ok(lo_-1e-6 <= out <= hi_+1e-6, f'spot coverage {out!r}, elements inside spots carry [{lo_!r},{hi_!r}]',
           spots=[gen.spot_state(s) for s in coll.spots])


def one_spot_map(ctx, spot, args, out, before=None):
    la, lo = grid_of(spot)
    sp, um, amb = spot_masks(spot, la, lo, km(args['star_rad']))
    ctx.event('single-spot maps judged')
    got = {float(kelvin(k)): np.asarray(v) for k, v in out.items()}
    tu, tp = float(kelvin(spot.teff_umbra)), float(kelvin(spot.teff_penumbra))
    ctx.ok(set(got) == {tu, tp}, f'spot map has temperatures {sorted(got)}')
    ctx.ok(np.all((got[tp] == sp) | amb), 'penumbra mask is not the cap', spot=gen.spot_state(spot))
    if tu != tp:
        ctx.ok(np.all((got[tu] == um) | amb), 'umbra mask is not the inner cap', spot=gen.spot_state(spot))


def spot_angular_radius(ctx, spot, args, out, before=None):
    a = ref.cap_radius(float(spot.area_current.to_value(u.km**2)), km(args['star_rad']))
    ctx.event('spot radii judged')
    ctx.close(out.to_value(u.rad), a, 'angular radius of the spot', rtol=1e-7, atol=3e-8)


def spot_radius(ctx, spot, args, out, before=None):
    ctx.event('spot radii judged')
    ctx.close(out.to_value(u.km), math.sqrt(float(spot.area_current.to_value(u.km**2))/math.pi),
              'linear radius of the spot', rtol=1e-9)


# ------------------------------------------------------------------ C04
def clip_teff(t):
    return min(max(t, 2300.), 3900.)


def rounded(x):
    """acceptable roundings to whole kelvin"""
    r = {float(math.floor(x+0.5))}
    if abs(x-math.floor(x)-0.5) < 1e-6:
        r |= {float(math.floor(x)), float(math.floor(x)+1)}
    return r


def wall_fraction(radius, fmin, depth, angle):
    if radius < fmin:
        return 1.0
    return 1-ref.lens(abs(depth/radius*math.tan(angle)), 1.0)/math.pi


def at_min(f, s):
    """radius and minimum radius are equal but for rounding"""
    if f.radius.unit == f.floor_teff_min_rad.unit and f.radius.value == f.floor_teff_min_rad.value:
        return False
    return s['fmin'] > 0 and abs(s['r']/s['fmin']-1) < 1e-9


def facula_pixels(f, la, lo, radius_km):
    r = ref.sep(la, lo, rad(f.lat), rad(f.lon))
    a = km(f.radius)/radius_km
    return r <= a, np.abs(r-a) < BORDER


def facula_map(ctx, star, args, out, before=None):
    la, lo = grid_of(star)
    got = kelvin(out)
    base = kelvin(star.map)
    lat0, lon0 = rad(args['lat0']), rad(args['lon0'])
    m = ref.mu(la, lo, lat0, lon0)
    R = km(star.radius)
    teff = float(kelvin(star.teff))
    owner = np.full(la.shape, -1)
    amb_all = np.zeros(la.shape, bool)
    info = []
    for i, f in enumerate(star.faculae.faculae):
        ins, amb = facula_pixels(f, la, lo, R)
        owner[ins] = i
        amb_all |= amb
        info.append((ins, amb))
    ctx.ok(got.shape == la.shape, f'map shape {got.shape}, grid {la.shape}')
    ctx.event('facula maps judged')
    bare = (owner < 0) & ~amb_all
    bad = bare & ~(np.abs(got-base) < 1e-3)
    ctx.ok(not bad.any(), f'{int(bad.sum())} elements outside every facula changed temperature',
           faculae=[gen.facula_state(f) for f in star.faculae.faculae])
    for i, f in enumerate(star.faculae.faculae):
        mine = (owner == i) & ~amb_all
        s = gen.facula_state(f)
        wall_d, floor_d = gen.facula_contrasts(s)
        walls = {clip_teff(teff+x) for x in rounded(wall_d)}
        floors = {clip_teff(teff+x) for x in rounded(floor_d)}
        vals = got[mine]
        is_wall = np.isin(np.round(vals, 5), np.round(list(walls), 5))
        is_floor = np.isin(np.round(vals, 5), np.round(list(floors), 5))
        ctx.event('facula elements judged', int(mine.sum()))
        ok = is_wall | is_floor
        if not ok.all():
            ctx.fail(f'element of facula {i} has {vals[~ok][0]!r} K, neither wall {walls} nor floor {floors}',
                     facula=s, teff=teff)
        if walls & floors:
            continue
        ang = float(ref.sep(lat0, lon0, rad(f.lat), rad(f.lon)))
        ins, amb = info[i]
        n = int((ins & ~amb).sum())
        na = int(amb.sum())
        if n+na == 0 or not mine.any():
            continue
        mv = m[mine]
        if is_wall.any() and is_floor.any():
            ctx.ok(mv[is_wall].max() <= mv[is_floor].min()+1e-9,
                   f'facula {i}: a floor element is closer to the limb than a wall element', facula=s,
                   angle=ang)
            ctx.event('wall/floor orders judged')
        if ang >= math.pi/2-1e-7:
            continue
        frac = wall_fraction(s['r'], s['fmin'], s['depth'], ang)
        if at_min(f, s):
            continue          # wall-only or not is decided by rounding
        ms = np.sort(m[ins | amb])
        nn = len(ms)
        kmin = math.ceil(frac*n-1-1e-6)-na
        kmax = math.floor(frac*nn+1+1e-6)+na
        if kmin >= 1:
            must = mv < ms[min(kmin, nn)-1]-1e-9
            ctx.ok(not np.any(must & ~is_wall), f'facula {i}: too few wall elements for wall share {frac:.4f}',
                   facula=s, angle=ang, n=n, wall=int(is_wall.sum()))
        if kmax < nn:
            must = mv > ms[max(kmax, 1)-1]+1e-9
            ctx.ok(not np.any(must & ~is_floor), f'facula {i}: too many wall elements for wall share {frac:.4f}',
                   facula=s, angle=ang, n=n, wall=int(is_wall.sum()))
        ctx.event('wall shares judged')


def facula_mask(ctx, f, args, out, before=None):
    la, lo = grid_of(f)
    ins, amb = facula_pixels(f, la, lo, km(args['star_rad']))
    ctx.event('facula masks judged')
    out = np.asarray(out)
    ctx.ok(out.shape == la.shape, f'facula mask shape {out.shape}, grid {la.shape}')
    ctx.ok(np.all((out == ins) | amb), 'facula mask is not the disk of radius r/R', facula=gen.facula_state(f))


def facula_index(ctx, coll, args, out, before=None):
    la, lo = grid_of(coll)
    R = km(args['star_rad'])
    quiet_ = np.abs(kelvin(args['pixmap'])-kelvin(args['star_teff'])) < 1e-9
    want = np.zeros(la.shape, int)
    amb_all = np.zeros(la.shape, bool)
    for i, f in enumerate(coll.faculae):
        ins, amb = facula_pixels(f, la, lo, R)
        want[ins & quiet_] = i+1
        amb_all |= amb
    imap, d = out
    ctx.event('facula index maps judged')
    ctx.ok(np.all((np.asarray(imap) == want) | amb_all), 'facula index map is wrong')
    ctx.ok(dict(d) == {i: i+1 for i in range(len(coll.faculae))}, f'facula index dictionary {d}')


# ------------------------------------------------------------------ C05
def effective_area(fraction):
    def judge(ctx, f, args, out, before=None):
        s = gen.facula_state(f)
        ang = rad(args['angle'])
        if not 0 <= ang < math.pi/2-1e-9:
            return
        wd, fd = gen.facula_contrasts(s)
        near = at_min(f, s)
        vals = list(out.items())
        ctx.event('effective areas judged')
        if rounded(wd) & rounded(fd):
            # not told apart: nothing may be lost, and whatever is reported is theirs
            full = 1.0 if fraction else math.pi*s['r']**2*math.cos(ang)
            unit = DIMLESS if fraction else u.km**2
            total = sum(float(u.Quantity(v).to_value(unit)) for _, v in vals)
            ctx.ok(all(float(kelvin(k)) in rounded(wd) | rounded(fd) for k, _ in vals), f'contrasts {list(out)}, wall {wd} and floor {fd}', facula=s)
            ctx.close(total, full, 'area of wall and floor of the same temperature', rtol=1e-9, facula=s, angle=ang)
            ctx.event('areas of like wall and floor judged')
            return
        ctx.ok(len(vals) == 2, 'wall and floor are not both reported', keys=[str(k) for k in out])
        got = {}
        for k, v in vals:
            kk = float(kelvin(k))
            if kk in rounded(wd):
                got['wall'] = v
            elif kk in rounded(fd):
                got['floor'] = v
            else:
                ctx.fail(f'contrast {kk} is neither wall {wd} nor floor {fd}', facula=s)
        ctx.ok(set(got) == {'wall', 'floor'}, 'wall and floor are not both reported', facula=s)
        unit = DIMLESS if fraction else u.km**2
        w, fl = float(u.Quantity(got['wall']).to_value(unit)), float(u.Quantity(got['floor']).to_value(unit))
        full = 1.0 if fraction else math.pi*s['r']**2*math.cos(ang)
        ctx.ok(w >= -1e-9*full and fl >= -1e-9*full, f'negative effective area wall={w!r} floor={fl!r}',
               facula=s, angle=ang)
        ctx.close(w+fl, full, 'wall plus floor area', rtol=1e-9)
        if not near:
            want = wall_fraction(s['r'], s['fmin'], s['depth'], ang)
            ctx.close(w/full, want, f'wall share at angle {ang:.6f}', rtol=1e-6, atol=1e-6)
        ctx.margin('floor share', fl/full)
        if 1e-6 < fl/full < 1-1e-6:
            ctx.event('partly visible floors judged')
    return judge


def contrast(which):
    def judge(ctx, f, args, out, before=None):
        s = gen.facula_state(f)
        want = gen.facula_contrasts(s)[which]
        ctx.event('contrasts judged')
        ctx.close(kelvin(out), want, ('wall', 'floor')[which]+' contrast', rtol=1e-9,
                  atol=1e-9*(abs(s['fslope'])*max(s['r'], s['fmin'])+1))
    return judge


# ------------------------------------------------------------------ C06 / C07
def snap_spot(ctx, spot, args):
    return gen.spot_state(spot), bool(spot.area_current.unit == spot.area_max.unit
                                      and spot.area_current.value == spot.area_max.value)


def same_but(ctx, a, b, skip, what):
    for k in a:
        if k not in skip and a[k] != b[k]:
            ctx.fail(f'{what} changed {k} from {a[k]!r} to {b[k]!r}')


def spot_aged(ctx, spot, args, out, before):
    t = float(args['time'].to_value(u.day))
    now = gen.spot_state(spot)
    b, full = before                    # full: exactly at its maximum, in the same unit
    same_but(ctx, b, now, ('area', 'growing'), 'ageing a spot')
    if b['growing'] and b['area'] > b['area_max']*(1+1e-12):
        return
    a, g, dist = ref.spot_age(b['area'], b['growing'], b['area_max'], b['g'], b['d'], t)
    ctx.event('spot steps judged')
    ctx.ok(now['area'] >= 0 and now['area'] <= b['area_max']*(1+1e-9), f"spot area {now['area']!r} outside "
           f"[0, {b['area_max']!r}]", before=b, days=t)
    tol = 1e-9*max(b['area'], b['area_max']) + 1e-9*b['d']*t
    ctx.ok(abs(now['area']-a) <= tol, f"spot area after {t!r} d is {now['area']!r}, expected {a!r}", before=b)
    ttol = 1e-9*(1+t)
    if dist > ttol or (dist == 0 and full):
        ctx.ok(now['growing'] == g, f"spot growing={now['growing']} after {t!r} d, expected {g}", before=b)
    if b['growing'] and not g:
        ctx.event('spot turning points judged')
    if not g and a == 0:
        ctx.event('spot ends of life judged')
    if not b['growing']:
        ctx.ok(not now['growing'], 'a decaying spot grows again', before=b)
        ctx.ok(now['area'] <= b['area'], 'a decaying spot gained area', before=b, after=now)


def snap_fac(ctx, f, args):
    return gen.facula_state(f)


def facula_aged(ctx, f, args, out, before):
    t = float(args['time'].to_value(u.day))
    now = gen.facula_state(f)
    same_but(ctx, before, now, ('r', 'growing'), 'ageing a facula')
    b = before
    if b['growing'] and b['r'] > b['rmax']*(1+1e-12):
        return
    r, g, dist = ref.facula_age(b['r'], b['growing'], b['rmax'], b['life'], t)
    ctx.event('facula steps judged')
    if r > 1e-290:
        ctx.ok(now['r'] > 0, f"facula radius {now['r']!r}", before=b, days=t)
    ctx.ok(now['r'] <= b['rmax']*(1+1e-9), f"facula radius {now['r']!r} above the maximum", before=b, days=t)
    rt = 1e-9*(1+t/b['life'])
    ctx.ok(abs(now['r']-r) <= rt*r+1e-290, f"facula radius after {t!r} d is {now['r']!r}, expected {r!r}", before=b)
    if dist > 1e-9*(t+b['life']):
        ctx.ok(now['growing'] == g, f"facula growing={now['growing']} after {t!r} d, expected {g}", before=b)
    if b['growing'] and not g:
        ctx.event('facula turning points judged')
    if not b['growing']:
        ctx.ok(not now['growing'], 'a shrinking facula grows again', before=b)


# ------------------------------------------------------------------ C08
def snap_spotlist(ctx, coll, args):
    return list(coll.spots), [gen.spot_state(s) for s in coll.spots]


def spotlist_aged(ctx, coll, args, out, before):
    objs, states = before
    t = float(args['time'].to_value(u.day))
    keep, maybe = [], set()
    for o, b in zip(objs, states):
        now = gen.spot_state(o)
        if not (b['growing'] and b['area'] > b['area_max']):
            a, g, dist = ref.spot_age(b['area'], b['growing'], b['area_max'], b['g'], b['d'], t)
            tol = 1e-9*max(b['area'], b['area_max']) + 1e-9*b['d']*t
            ctx.ok(abs(now['area']-a) <= tol, f"spot in the collection has area {now['area']!r} after {t!r} d, "
                   f'expected {a!r}', before=b)
        if now['growing'] or now['area'] > 0:
            keep.append(o)
            if not now['growing'] and now['area'] <= 1e-9*b['area_max']:
                maybe.add(id(o))
    ctx.event('spot collections aged')
    ctx.event('spots removed', len(objs)-len(keep))
    now = list(coll.spots)
    if [id(o) for o in now] != [id(o) for o in keep]:
        a = [id(o) for o in now if id(o) not in maybe]
        b = [id(o) for o in keep if id(o) not in maybe]
        ctx.ok(a == b, f'after ageing, the collection of {len(objs)} spots holds {len(now)}, expected {len(keep)}')


def snap_faclist(ctx, coll, args):
    return list(coll.faculae), [gen.facula_state(s) for s in coll.faculae]


def faclist_aged(ctx, coll, args, out, before):
    objs, states = before
    t = float(args['time'].to_value(u.day))
    keep, maybe = [], set()
    for o, b in zip(objs, states):
        now = gen.facula_state(o)
        if not (b['growing'] and b['r'] > b['rmax']):
            r, g, dist = ref.facula_age(b['r'], b['growing'], b['rmax'], b['life'], t)
            ctx.ok(abs(now['r']-r) <= 1e-9*(1+t/b['life'])*r+1e-290, f"facula in the collection has radius {now['r']!r} "
                   f'after {t!r} d, expected {r!r}', before=b)
        lim = b['rmax']/math.e**2
        if now['growing'] or now['r'] > lim:
            keep.append(o)
        if not now['growing'] and abs(now['r']-lim) <= 1e-9*lim:
            maybe.add(id(o))
    ctx.event('facula collections aged')
    ctx.event('faculae removed', len(objs)-len(keep))
    now = list(coll.faculae)
    a = [id(o) for o in now if id(o) not in maybe]
    b = [id(o) for o in keep if id(o) not in maybe]
    ctx.ok(a == b, f'after ageing, the collection of {len(objs)} faculae holds {len(now)}, expected {len(keep)}')


# ------------------------------------------------------------------ C11 / C12
def planet_xy(R, a, phase, inc):
    """projected planet position in stellar radii"""
    p = phase-math.pi
    return a/R*math.sin(p), a/R*math.cos(p)*math.cos(inc)


def transit_mask(ctx, star, args, out, before=None):
    mask, plf = out
    mask = np.asarray(mask, float)
    la, lo = grid_of(star)
    lat0, lon0 = rad(args['lat0']), rad(args['lon0'])
    R = km(star.radius)
    rp = km(args['radius'])/R
    ph = rad(args['phase'])
    x0, y0 = planet_xy(R, km(args['orbit_radius']), ph, rad(args['inclination']))
    m = ref.mu(la, lo, lat0, lon0)
    ctx.ok(mask.shape == la.shape, f'mask shape {mask.shape}, grid {la.shape}')
    ctx.ok(np.all(np.isfinite(mask)) and mask.min() >= -1e-9 and mask.max() <= 1+1e-9,
           'transit mask outside [0,1]', lo=mask.min(), hi=mask.max())
    if abs(math.cos(ph)) < 1e-12:
        return
    if math.cos(ph) > 0:
        ctx.event('far-side masks judged')
        ctx.ok(mask.max() <= 1e-12, 'a planet behind the star occults it', phase=ph)
        return
    ctx.event('near-side masks judged')
    ctx.ok(float(plf) == 1.0, f'a planet in front of the star is reported {plf!r} visible')
    x, y = ref.ortho(la, lo, lat0, lon0)
    D = np.hypot(x-x0, y-y0)
    pr = 2*np.sqrt(ref.weights(la))
    eps = 0.012
    hidden = m < -1e-9
    ctx.ok(mask[hidden].max(initial=0) <= 1e-9, 'an element on the far side is occulted', x0=x0, y0=y0)
    outside = (m > 1e-9) & (D > rp+2*pr*np.abs(m)+eps)
    inside = (m > 1e-9) & (D < rp-2.0*pr*np.abs(m)-eps)
    ctx.event('elements well inside the planet judged', int(inside.sum()))
    ctx.event('elements well outside the planet judged', int(outside.sum()))
    if outside.any() and mask[outside].max() > 1e-9:
        i = np.argmax(np.where(outside, mask, -1))
        ctx.fail(f'element {D.ravel()[i]:.4f} R from the planet center (planet radius {rp:.4f}) is occulted '
                 f'{mask.ravel()[i]:.4f}', x0=x0, y0=y0, lat0=lat0, lon0=lon0)
    if inside.any() and mask[inside].min() < 0.99:
        i = np.argmin(np.where(inside, mask, 2))
        ctx.fail(f'element {D.ravel()[i]:.4f} R from the planet center (planet radius {rp:.4f}) is only occulted '
                 f'{mask.ravel()[i]:.4f}', x0=x0, y0=y0, lat0=lat0, lon0=lon0)


def eclipse(ctx, star, args, out, before=None):
    mask, plf = out
    R = km(star.radius)
    rp = km(args['radius'])/R
    ph = rad(args['phase'])
    x0, y0 = planet_xy(R, km(args['orbit_radius']), ph, rad(args['inclination']))
    d = math.hypot(x0, y0)
    plf = float(plf)
    ctx.event('planet fractions judged')
    ctx.ok(0 <= plf <= 1, f'planet fraction {plf!r}')
    if abs(math.cos(ph)) < 1e-12:
        if d > 1+rp+1e-9:
            ctx.ok(plf == 1, f'planet fraction {plf!r} with the disks apart')
        return
    if math.cos(ph) < 0:
        ctx.event('near-side planets judged')
        ctx.ok(plf == 1, f'a planet on the near side is reported {plf!r} visible', phase=ph)
        return
    ctx.event('far-side planets judged')
    want = 1-ref.lens(d, rp)/(math.pi*rp**2)
    tol = 2e-7
    ctx.ok(abs(plf-want) <= tol, f'visible fraction of the planet {plf!r}, expected {want!r}', d=d, rp=rp)
    if 1e-6 < want < 1-1e-6:
        ctx.event('partial eclipses judged')
    ctx.ok(np.max(np.abs(np.asarray(mask, float))) <= 1e-12, 'a planet behind the star occults it', phase=ph)
