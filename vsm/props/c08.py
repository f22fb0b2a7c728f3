"""Surface features are neither lost, duplicated nor kept after they decayed."""
import copy

import numpy as np
from astropy import units as u
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.faculae import FaculaCollection
from vspec_vsm.spots import SpotCollection

from vsm import gen, judges, mission, mon, ref

RULE = ('random histories of add (single, list, tuple, empty), birth, mature, age, clean and re-grid operations on stars '
        'and bare collections whose features, generators and holders were made with different grids; after every '
        'operation the held objects are compared, by identity and order, with a shadow list, and their maps with '
        'the holder grid. Births are compared with a clone of the generator. Distinct: a different (star, operation '
        'sequence); non-trivial: at least one feature was added and one ageing step made.')
NEED = {'memberships compared': 1500, 'spot collections aged': 200, 'facula collections aged': 200, 'spots removed': 20,
        'faculae removed': 20, 'births compared with the generator': 150, 'grids compared': 500,
        'features carried to the brink': 150, 'lists of the caller compared': 500, 'features in a throng': 3000}
ASSUMPTIONS = ['the generator is itself deterministic in its random state (C16)']
TABLE = {'SpotCollection.age': (judges.spotlist_aged, judges.snap_spotlist),
         'FaculaCollection.age': (judges.faclist_aged, judges.snap_faclist)}


def same_list(ctx, got, want, what):
    ctx.event('memberships compared')
    got = list(got)
    ctx.ok([id(x) for x in got] == [id(x) for x in want],
           f'{what}: the collection holds {len(got)} features instead of {len(want)}, or in another order')


def on_grid(ctx, holder_grid, spots, facs, radius):
    la, lo = holder_grid.grid()
    la, lo = la.to_value(u.rad), lo.to_value(u.rad)
    R = judges.km(radius)
    for s in spots:
        sp, um, amb = judges.spot_masks(s, la, lo, R)
        got = s.map_pixels(radius)[s.teff_penumbra]
        ctx.ok(got.shape == la.shape, f'a held spot maps onto {got.shape}, its holder has {la.shape}')
        ctx.ok(np.all((got == sp) | amb), 'a held spot is not evaluated on its holder grid')
        ctx.event('grids compared')
    for f in facs:
        ins, amb = judges.facula_pixels(f, la, lo, R)
        got = f.map_pixels(radius)
        ctx.ok(got.shape == la.shape, f'a held facula maps onto {got.shape}, its holder has {la.shape}')
        ctx.ok(np.all((got == ins) | amb), 'a held facula is not evaluated on its holder grid')
        ctx.event('grids compared')


def states(feats, fn):
    return [fn(f) for f in feats]


def feq(ctx, got, want, what):
    ctx.ok(len(got) == len(want), f'{what}: {len(got)} features, the generator makes {len(want)}')
    for g, w in zip(got, want):
        for k in w:
            same = g[k] == w[k] if isinstance(w[k], bool) else abs(g[k]-w[k]) <= 1e-9*max(1, abs(w[k]))
            ctx.ok(same, f'{what}: {k} is {g[k]!r}, the generator makes {w[k]!r}')


def aged_keep(objs, before, kind):
    """objects that must survive (None: undecided by rounding)"""
    keep = []
    for o in objs:
        if kind == 'spot':
            s = gen.spot_state(o)
            dead = (not s['growing']) and s['area'] <= 0
        else:
            s = gen.facula_state(o)
            dead = (not s['growing']) and o.radius.to_value(u.km) <= (o.r_max/np.e**2).to_value(u.km)
        keep.append(not dead)
    return [o for o, k in zip(objs, keep) if k]


def twins(rng, specs):
    """sometimes equal features, or ones that differ in a single value"""
    if specs and rng.random() < .4:
        extra = dict(gen.pick(rng, specs))
        if rng.random() < .5:
            k = gen.pick(rng, ['lat', 'lon', 'growing'])
            extra[k] = not extra[k] if k == 'growing' else float(rng.uniform(-80, 80))
        specs = specs+[extra]
    return specs


def small(rng, specs):
    """some faculae that have only begun to grow, or are about to be through"""
    for f in specs:
        if rng.random() < .3:
            f['rmax'] = f['r']*gen.loguni(rng, 1, 2e3) if f['growing'] else f['r']*float(rng.uniform(5, 7.38))
    return specs


def container(rng, items):
    items = list(items)
    c = rng.random()
    if len(items) == 1 and c < .5:
        return items[0]
    return tuple(items) if c < .75 else items


class Lent:
    """lists handed over stay the caller's: he may go on using them"""

    def __init__(self):
        self.lists = []

    def __call__(self, rng, items):
        c = container(rng, items)
        if isinstance(c, list):
            self.lists.append((c, list(c)))
        return c

    def check(self, ctx, rng):
        for c, was in self.lists:
            ctx.ok([id(x) for x in c] == [id(x) for x in was], f'a list of the caller now has {len(c)} features instead of {len(was)}')
            ctx.event('lists of the caller compared')
        if self.lists and rng.random() < .3:      # the caller empties, or fills, a list of his
            c, was = gen.pick(rng, self.lists)
            if c and rng.random() < .6:
                c.clear()
            else:
                c.append(None)
            was[:] = c


@mon.monitored(TABLE)
def star_history(ctx, rng):
    q = gen.Units(rng) if rng.random() < .25 else gen.CANONICAL
    st, spec = mission.make(rng, q)
    shadow_s, shadow_f = list(st.spots.spots), list(st.faculae.faculae)
    ctx.ok(len(shadow_s) == len(spec['spots']) and len(shadow_f) == len(spec['faculae']),
           'a new star does not hold the features it was given')
    feq(ctx, states(shadow_s, gen.spot_state), spec['spots'], 'new star spots')
    feq(ctx, states(shadow_f, gen.facula_state), spec['faculae'], 'new star faculae')
    on_grid(ctx, CoordinateGrid.new(spec['grid']), shadow_s, shadow_f, st.radius)
    ops, aged, added, lent = [], False, False, Lent()
    for _ in range(int(rng.integers(6, 14))):
        op = gen.pick(rng, ['adds', 'addf', 'births', 'birthf', 'mature', 'age', 'age', 'age', 'clean', 'setgrid',
                            'query', 'radius'])
        if len(shadow_s)+len(shadow_f) > 40 and op in ('births', 'birthf', 'mature'):
            op = 'age'
        ops.append(op)
        if op == 'adds':
            new = [gen.mk_spot(s, q, grid_params=gen.grid(rng)) for s in
                   twins(rng, [gen.spot(rng, spec['radius'], spec['teff'], big=False) for _ in range(int(rng.integers(0, 4)))])]
            st.add_spot(lent(rng, new))
            shadow_s += new
            added |= bool(new)
        elif op == 'addf':
            new = [gen.mk_facula(f, q, grid_params=gen.grid(rng)) for f in
                   small(rng, twins(rng, [gen.facula(rng, spec['radius'], big=False) for _ in range(int(rng.integers(0, 4)))]))]
            st.add_fac(lent(rng, new))
            shadow_f += new
            added |= bool(new)
        elif op in ('births', 'birthf', 'mature'):
            spots = op != 'birthf'
            gobj = st.spot_generator if spots else st.fac_generator
            clone = copy.deepcopy(gobj)
            t = mission.birth_time(gobj, 'spots' if spots else 'fac', st.radius, rng,
                                   nmax=4. if rng.random() < .85 else 60.)
            t = t if rng.random() < .85 else gen.loguni(rng, 1e-7, 1e-2)*min(t, 1.)
            if op == 'births':
                st.birth_spots(q(t, 'time'))
                want = clone.birth_spots(t*u.day, st.radius)
            elif op == 'birthf':
                st.birth_faculae(q(t, 'time'))
                want = clone.birth_faculae(t*u.day, st.radius)
            else:
                c = float(gen.pick(rng, [0., 0.01, 0.03]))
                st.generate_mature_spots(c)
                want = clone.generate_mature_spots(c, st.radius)
            now = list(st.spots.spots if spots else st.faculae.faculae)
            shadow = shadow_s if spots else shadow_f
            ctx.ok([id(x) for x in now[:len(shadow)]] == [id(x) for x in shadow], f'{op} changed the earlier features')
            new = now[len(shadow):]
            fn = gen.spot_state if spots else gen.facula_state
            feq(ctx, states(new, fn), states(want, fn), op)
            ctx.event('births compared with the generator')
            ctx.event('features born', len(new))
            shadow += new
            added |= bool(new)
        elif op == 'age':
            t = float(gen.pick(rng, [0., 1e-3, 0.3, 1., 5., 30., gen.loguni(rng, 1e-7, 1e-2), gen.loguni(rng, 30, 1e4)]))
            bs, bf = states(shadow_s, gen.spot_state), states(shadow_f, gen.facula_state)
            st.age(q(t, 'time'))
            for o, b in zip(shadow_s, bs):
                if not (b['growing'] and b['area'] > b['area_max']):
                    a, g, _ = ref.spot_age(b['area'], b['growing'], b['area_max'], b['g'], b['d'], t)
                    ctx.ok(abs(gen.spot_state(o)['area']-a) <= 1e-9*max(b['area_max'], b['area'])+1e-9*b['d']*t,
                           f'a spot on the star was not aged by {t} d', before=b)
            for o, b in zip(shadow_f, bf):
                r, g, _ = ref.facula_age(b['r'], b['growing'], b['rmax'], b['life'], t)
                ctx.ok(abs(gen.facula_state(o)['r']-r) <= 1e-9*(1+t/b['life'])*r+1e-290,
                       f'a facula on the star was not aged by {t} d', before=b)
            shadow_s, shadow_f = aged_keep(shadow_s, bs, 'spot'), aged_keep(shadow_f, bf, 'fac')
            aged = True
        elif op == 'clean':
            st.spots.clean_spotlist()
            st.faculae.clean_faclist()
            # features that were handed over already decayed may go now
            shadow_s, shadow_f = aged_keep(shadow_s, None, 'spot'), aged_keep(shadow_f, None, 'fac')
        elif op == 'setgrid':
            st.set_spot_grid()
            st.set_fac_grid()
        elif op == 'query':
            mission.query(rng, st, spec, q)
        elif op == 'radius':
            st.radius = q(spec['radius']*float(rng.uniform(1., 1.4)), 'len')
        lent.check(ctx, rng)
        same_list(ctx, st.spots.spots, shadow_s, op)
        same_list(ctx, st.faculae.faculae, shadow_f, op)
    on_grid(ctx, CoordinateGrid.new(spec['grid']), shadow_s, shadow_f, st.radius)
    if aged and added:
        ctx.key(spec, ops)
    ctx.sample(dict(spec=spec, ops=ops))


@mon.monitored(TABLE)
def bare_collections(ctx, rng):
    R = gen.loguni(rng, .2, 2)*ref.RSUN_KM
    g0 = gen.grid(rng)
    mk_s = lambda: gen.mk_spot(gen.spot(rng, R), grid_params=gen.grid(rng))
    mk_f = lambda: gen.mk_facula(small(rng, [gen.facula(rng, R)])[0], grid_params=gen.grid(rng))
    ss, ff = [mk_s() for _ in range(int(rng.integers(0, 4)))], [mk_f() for _ in range(int(rng.integers(0, 4)))]
    cs, cf = SpotCollection(*ss, grid_params=g0), FaculaCollection(*ff, grid_params=g0)
    cur = CoordinateGrid.new(g0)
    ops, lent = [], Lent()
    for _ in range(8):
        op = gen.pick(rng, ['add', 'add', 'regrid', 'age'])
        ops.append(op)
        if op == 'add':
            a, b = [mk_s() for _ in range(int(rng.integers(0, 3)))], [mk_f() for _ in range(int(rng.integers(0, 3)))]
            cs.add_spot(lent(rng, a))
            cf.add_faculae(lent(rng, b))
            ss += a
            ff += b
        elif op == 'regrid':
            cur = CoordinateGrid.new(gen.grid(rng))
            cs.set_gridmaker(cur)
            cf.set_gridmaker(cur)
        else:
            t = float(gen.pick(rng, [0.01, 1., 20., gen.loguni(rng, 1e-7, 1e-2)]))*u.day
            cs.age(t)
            cf.age(t)
            ss, ff = aged_keep(ss, None, 'spot'), aged_keep(ff, None, 'fac')
        lent.check(ctx, rng)
        same_list(ctx, cs.spots, ss, op)
        same_list(ctx, cf.faculae, ff, op)
        if op != 'age':
            on_grid(ctx, cur, ss, ff, R*u.km)
    m = cs.map_pixels(R*u.km, 3000*u.K)
    ctx.ok(m.shape == cur.grid()[0].shape, 'the collection maps onto another grid')
    ctx.key(ops, g0, R)


@mon.monitored(TABLE)
def lifecycles(ctx, rng):
    """many features carried past their end of life in small steps: each leaves exactly once, when it is done"""
    R = ref.RSUN_KM*(1. if rng.random() < .75 else gen.loguni(rng, 1e-6, 1e-2))
    ss = [gen.mk_spot(gen.spot(rng, R, big=False), grid_params=20) for _ in range(8)]
    ff = [gen.mk_facula(gen.facula(rng, R, big=False), grid_params=20) for _ in range(8)]
    cs, cf = SpotCollection(*ss, grid_params=20), FaculaCollection(*ff, grid_params=20)
    for _ in range(25):
        t = float(gen.pick(rng, [0.2, 1., 4.]))*u.day
        cs.age(t)
        cf.age(t)
        ss, ff = aged_keep(ss, None, 'spot'), aged_keep(ff, None, 'fac')
        same_list(ctx, cs.spots, ss, 'age')
        same_list(ctx, cf.faculae, ff, 'age')
    ctx.key(float(rng.random()))


@mon.monitored(TABLE)
def brink(ctx, rng):
    """features carried to within a hair of their end, then over it: they stay until they are done"""
    R = gen.loguni(rng, .2, 2)*ref.RSUN_KM
    eps = gen.loguni(rng, 1e-9, 1e-2)
    ss, ff = [], []
    for i in range(4):
        s, f = gen.spot(rng, R, big=False), dict(gen.facula(rng, R, big=False), growing=False)
        s.update(growing=False, d=s['area']/float(rng.uniform(1, 30)))
        ss.append(gen.mk_spot(s, grid_params=20))
        ff.append(gen.mk_facula(f, grid_params=20))
        ts = (s['area']*(1-eps))/s['d']
        # the times at which this spot and this facula are all but through
        tf = np.log(f['r']/(f['rmax']/np.e**2*(1+eps)))/2*f['life']
        one_s, one_f = SpotCollection(ss[i], grid_params=20), FaculaCollection(ff[i], grid_params=20)
        one_s.age(ts*u.day)
        one_f.age(tf*u.day)
        ctx.ok(len(one_s.spots) == 1, f'a spot with {eps:.2g} of its area left was removed', state=gen.spot_state(ss[i]))
        ctx.ok(len(one_f.faculae) == 1, f'a facula {eps:.2g} above its last radius was removed',
               state=gen.facula_state(ff[i]))
        one_s.clean_spotlist()
        one_f.clean_faclist()
        same_list(ctx, one_s.spots, [ss[i]], 'clean')
        same_list(ctx, one_f.faculae, [ff[i]], 'clean')
        one_s.age((2*eps*s['area']/s['d']+1e-6)*u.day)
        one_f.age((np.log1p(eps)*f['life']+1e-6)*u.day)
        same_list(ctx, one_s.spots, [], 'the last step')
        same_list(ctx, one_f.faculae, [], 'the last step')
        ctx.event('features carried to the brink', 2)
    ctx.key(eps, R)


def throng(ctx, rng):
    """far more features than a test would use: none may be dropped"""
    R = ref.RSUN_KM
    n = int(gen.loguni(rng, 130, 1500))
    mk_s = lambda: gen.mk_spot(dict(gen.spot(rng, R, big=False), growing=True), grid_params=4)
    mk_f = lambda: gen.mk_facula(dict(gen.facula(rng, R, big=False), growing=True), grid_params=4)
    ss, ff = [mk_s() for _ in range(n)], [mk_f() for _ in range(n)]
    k = int(rng.integers(0, n))
    cs, cf = SpotCollection(*ss[:k], grid_params=4), FaculaCollection(*ff[:k], grid_params=4)
    how = gen.pick(rng, ['one', 'batch', 'star'])
    if how == 'star':
        spec = gen.star(rng, nspots=0, nfac=0)
        spec['grid'] = 4
        st = gen.mk_star(spec)
        st.add_spot(ss)
        st.add_fac(ff)
        cs, cf = st.spots, st.faculae
        st.age(1e-6*u.day)
    elif how == 'batch':
        cs.add_spot(ss[k:])
        cf.add_faculae(ff[k:])
    else:
        for s, f in zip(ss[k:], ff[k:]):
            cs.add_spot(s)
            cf.add_faculae(f)
    same_list(ctx, cs.spots, ss, f'{n} features added')
    same_list(ctx, cf.faculae, ff, f'{n} features added')
    cs.age(1e-6*u.day)
    cf.age(1e-6*u.day)
    same_list(ctx, cs.spots, aged_keep(ss, None, 'spot'), f'{n} features aged')
    same_list(ctx, cf.faculae, aged_keep(ff, None, 'fac'), f'{n} features aged')
    cs.clean_spotlist()
    cf.clean_faclist()
    same_list(ctx, cs.spots, aged_keep(ss, None, 'spot'), f'{n} features cleaned')
    same_list(ctx, cf.faculae, aged_keep(ff, None, 'fac'), f'{n} features cleaned')
    ctx.event('features in a throng', 2*n)
    ctx.key(n, k, how)


SCALE = 2       # quick runs: a multiple of the counts below
WORKLOADS = [('star_history', star_history, 200, 4000), ('bare_collections', bare_collections, 100, 2000),
             ('lifecycles', lifecycles, 40, 600), ('brink', brink, 60, 1500), ('throng', throng, 8, 60)]
