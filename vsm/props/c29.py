"""Simulations and features do not influence each other."""
import copy
import json
import os
import subprocess
import sys
import threading

import numpy as np
from astropy import units as u
import vspec_vsm.star as star_module
from vspec_vsm import Star
from vspec_vsm.faculae import FaculaCollection
from vspec_vsm.flares import FlareCollection
from vspec_vsm.spots import SpotCollection

from vsm import core, gen, mission, ref
from vsm.props.c09 import canon, same
from vsm.props.c16 import digest, sim

RULE = ('two to four different simulations (own stars, grids, generators and histories) logged step by step: alone, then '
        'interleaved in a random schedule, then in concurrent threads with a 10 microsecond switch interval, then in threads that a tracing scheduler '
        'preempts between random lines of the package, or that are stopped in one function after another while a second runs from beginning to end, and each alone in '
        'an interpreter that never saw the others; every log must be identical. Families of simulations that differ from one another in a single parameter, '
        'run in one order here and in the opposite order in another interpreter: each must give the same. And features, collections and generators built '
        'from the same quantity objects, aged and changed one at a time, with the others and the caller\'s quantities '
        'compared after every step. Distinct: a different set of simulations and schedule; non-trivial: at least two '
        'simulations took steps.')
NEED = {'interleaved steps compared': 200, 'threaded steps compared': 200, 'schedules with a switch': 8, 'preempted steps compared': 150, 'preemptions inside the package': 1000,
        'places of preemption': 60, 'meetings': 150, 'steps of meetings compared': 300, 'threads overlapping': 4,
        'pristine logs compared': 4, 'similar simulations compared': 250, 'similar simulations that differ': 180, 'bystanders compared': 400, 'shared quantities compared': 1500, 'default components compared': 60}
ASSUMPTIONS = ['stars do not share generators or collections (a star takes over the grid of those it is given)',
               'numpy, astropy and jax are themselves safe to use from several threads on separate data']
STEPS = 7


def scripts(rng, n):
    # neighbours in size and kind are the ones that could be mixed up
    return [(int(rng.integers(1 << 31)), int(rng.integers(1 << 31))) for _ in range(n)]


def logs(s):
    return [digest(x) for x in sim(*s)]


def check(ctx, got, want, what, event, **info):
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.ok(a == b, f'{what}: step {k} differs from the same simulation alone', **info)
        ctx.event(event)
    ctx.ok(len(got) == len(want), f'{what}: {len(got)} steps instead of {len(want)}', **info)


def interleave(ctx, rng):
    ss = scripts(rng, int(rng.integers(2, 5)))
    alone = [logs(s) for s in ss]
    live = [sim(*s) for s in ss]
    got = [[] for _ in ss]
    left = [i for i in range(len(ss)) for _ in range(STEPS)]
    order = rng.permutation(left).tolist()
    for i in order:
        got[i].append(digest(next(live[i])))
    for i in range(len(ss)):
        check(ctx, got[i], alone[i], 'interleaved', 'interleaved steps compared', scripts=ss, order=order)
    if any(a != b for a, b in zip(order, order[1:])):
        ctx.event('schedules with a switch')
    ctx.key('i', ss, order)
    ctx.sample(dict(scripts=ss, order=order))


def threads(ctx, rng):
    ss = scripts(rng, int(rng.integers(2, 4)))
    alone = [logs(s) for s in ss]
    got = [[] for _ in ss]
    err = []
    trail = []
    start = threading.Barrier(len(ss))

    def body(i):
        try:
            start.wait(60)
            for x in sim(*ss[i]):
                trail.append(i)
                got[i].append(digest(x))
        except BaseException as e:   # reported by the main thread
            err.append(f'{type(e).__name__}: {e}')
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        tt = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(ss))]
        for t in tt:
            t.start()
        for t in tt:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    ctx.ok(not err, f'a simulation failed next to another in a thread: {err[:1]}', scripts=ss)
    for i in range(len(ss)):
        check(ctx, got[i], alone[i], 'next to another in a thread', 'threaded steps compared', scripts=ss)
    if sum(a != b for a, b in zip(trail, trail[1:])) > len(ss):
        ctx.event('threads overlapping')
    ctx.key('t', ss)


def pristine(ctx, rng):
    """the log of a process that ran nothing else"""
    ss = scripts(rng, 2)
    here = [logs(s) for s in ss]
    procs = []
    for s in ss:
        code = ('import sys, json\n'
                f'sys.path[:0] = {[core.ROOT] + ([core.REPO] if core.REPO != "/repo" else [])!r}\n'
                'import warnings; warnings.simplefilter("ignore")\n'
                'from vsm.props import c29\n'
                f'print(json.dumps(c29.logs({s!r})))')
        procs.append(subprocess.Popen([sys.executable, '-c', code], env=dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for s, p, h in zip(ss, procs, here):
        o, e = p.communicate()
        if p.returncode:
            raise core.Inconclusive(e[-500:])
        there = json.loads(o.strip().splitlines()[-1])
        ctx.ok(there == h, 'a simulation differs from the same one in a process that ran nothing before', script=s)
        ctx.event('pristine logs compared')
    ctx.key('p', ss)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path+(k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path+(i,))
    elif isinstance(x, (bool, int, float, str)):
        yield path


def altered(x, path):
    """the same specification with one entry changed"""
    if path:
        if isinstance(x, tuple):
            return tuple(altered(v, path[1:]) if i == path[0] else v for i, v in enumerate(x))
        y = copy.copy(x)
        y[path[0]] = altered(x[path[0]], path[1:])
        return y
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x+1
    if isinstance(x, str):
        return {'iso': 'solar', 'solar': 'iso'}[x]
    return x*1.04+1e-3


def family(seed):
    """a simulation, and many that differ from it in one parameter each"""
    rng = np.random.default_rng(seed)
    star = gen.star(rng, nspots=2, nfac=1, big=False, kind=gen.pick(rng, ['rect', 'spiral']))
    star['u1'], star['u2'] = .3, .2
    star['gran'] = dict(mean=.4, amp=.1, period=float(rng.uniform(3, 9)), dteff=120., seed=3)
    base = dict(star=star, sg=gen.spotgen_spec(rng, star['radius']), fg=gen.facgen_spec(rng, star['radius']),
                flg=gen.flaregen_spec(rng, rate=3.), flares=[gen.flare_spec(rng, 1.) for _ in range(2)],
                view=dict(lat=float(rng.uniform(-60, 60)), lon=float(rng.uniform(0, 300))),
                planet=dict(a=star['radius']*20, rp=star['radius']*.1, phase=181., inc=89.5), seed=int(rng.integers(1 << 30)), days=.7)
    paths = list(leaves(base))
    paths = [paths[i] for i in rng.permutation(len(paths))[:70]]
    return [base]+[altered(base, p) for p in paths], [()]+paths


def evaluate(v):
    """everything a caller can see of one simulation of the family"""
    r = np.random.default_rng(v['seed'])
    st = gen.mk_star(v['star'], spot_generator=gen.mk_spotgen(v['sg'], r), fac_generator=gen.mk_facgen(v['fg'], r),
                     flare_generator=gen.mk_flaregen(v['flg'], r), rng=r)
    o = gen.obs(v['view']['lat'], v['view']['lon'])
    t = np.linspace(0, v['days'], 12)*u.day
    out = [canon(x) for x in st.calc_coverage(o, granulation_fraction=.2, **gen.planet_kw(v['planet']))]
    out += [canon(st.map), canon(st.get_mu(o['lat'], o['lon'])), canon(st.get_jacobian()), canon(st.spots.get_coverage(st.radius))]
    out += [canon(np.asarray(st.get_granulation_coverage(t)))]
    out += [canon(st.ld_mask(st.get_mu(o['lat'], o['lon']))), canon(st.get_pl_frac(90.5*u.deg, v['planet']['a']*u.km, v['planet']['rp']*u.km, v['planet']['inc']*u.deg))]
    fl = [gen.mk_flare(f) for f in v['flares']]
    out += [canon(f.areacurve(t)) for f in fl]+[canon(f.get_timearea(t)) for f in fl]
    st.get_flares_over_observation(v['days']*2*u.day)
    out.append([float(d['timearea'].to_value('km2 hr')) for d in st.get_flare_int_over_timeperiod(.1*u.day, v['days']*u.day, o)])
    one = float(st.spot_generator.get_n_spots_to_birth(1*u.day, st.radius))
    st.birth_spots(4/one*u.day)
    one = float(st.fac_generator.get_n_faculae_expected(1*u.day, st.radius))
    st.birth_faculae(4/one*u.day)
    out.append(gen.star_state(st))
    st.age(v['days']*u.day)
    out += [gen.star_state(st), canon(st.map)]
    return out


def family_log(seed, backwards):
    vs, paths = family(seed)
    order = range(len(vs))[::-1] if backwards else range(len(vs))
    got = [None]*len(vs)
    for i in order:
        try:
            got[i] = digest(evaluate(vs[i]))
        except Exception as e:     # an altered value may be refused: then always
            got[i] = type(e).__name__
    return got


def variants(ctx, rng):
    """simulations that differ in one parameter, run in one order here and in the opposite order elsewhere"""
    seed = int(rng.integers(1 << 31))
    p = subprocess.Popen([sys.executable, '-c', 'import sys, json\n'
                          f'sys.path[:0] = {[core.ROOT] + ([core.REPO] if core.REPO != "/repo" else [])!r}\n'
                          'import warnings; warnings.simplefilter("ignore")\n'
                          'from vsm.props import c29\n'
                          f'print(json.dumps(c29.family_log({seed}, True)))'],
                         env=dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    here = family_log(seed, False)
    o, e = p.communicate()
    if p.returncode:
        raise core.Inconclusive(e[-500:])
    there = json.loads(o.strip().splitlines()[-1])
    paths = family(seed)[1]
    for k, (a, b) in enumerate(zip(here, there)):
        ctx.ok(a == b, 'a simulation depends on which similar ones ran before it', seed=seed, differs_in=paths[k], here=a, there=b)
        ctx.event('similar simulations compared')
        if k and a != here[0]:
            ctx.event('similar simulations that differ')
        if len(a) < 24:
            ctx.event('variants refused')
    ctx.key('v', seed)


class Baton:
    """runs threads one at a time and hands over between lines of the package, as a seeded random schedule says"""

    def __init__(self, n, seed, p):
        self.rng, self.p = np.random.default_rng(seed), p
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.free = False               # a thread waits for something else than the baton: let all run
        self.switches, self.places = 0, set()
        self.me = threading.local()
        # jax may hold locks of its own while it traces granules.py
        self.files = os.path.join(os.path.dirname(os.path.abspath(star_module.__file__)), '')

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.files) or name.endswith('granules.py'):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line' and not self.free and self.rng.random() < self.p:
            self.hand_over((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self.line

    def hand_over(self, place):
        others = [i for i in self.alive if i != self.me.i]
        if others:
            self.switches += 1
            self.places.add(place)
            self.sem[others[int(self.rng.integers(len(others)))]].release()
            if not self.sem[self.me.i].acquire(timeout=60):
                self.free = True
                for s in self.sem:
                    s.release()

    def run(self, bodies):
        def work(i):
            self.me.i = i
            self.sem[i].acquire(timeout=120)
            sys.settrace(self.trace)
            try:
                bodies[i]()
            finally:
                sys.settrace(None)
                self.alive.remove(i)
                if self.alive:
                    self.sem[self.alive[0]].release()
        tt = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in tt:
            t.start()
        self.sem[0].release()
        for t in tt:
            t.join(300)
        return not any(t.is_alive() for t in tt)


def short(script, kind):
    """a brief simulation: most of what a star does, few times"""
    rng = np.random.default_rng(script)
    st, spec = mission.make(rng, kind=kind, nspots=int(rng.integers(1, 3)), nfac=1)
    for k in range(4):
        la, lo = gen.view(rng, spec)
        p = gen.planet(rng, spec['radius'])
        c = st.calc_coverage(gen.obs(la, lo), granulation_fraction=.2, **gen.planet_kw(p))
        out = [canon(x) for x in c]
        out += [canon(st.spots.get_coverage(st.radius)), canon(st.get_mu(la*u.deg, lo*u.deg)), canon(st.get_jacobian())]
        op = gen.pick(rng, ['age', 'birth', 'flare', 'mature'])
        if op == 'age':
            st.age(float(rng.uniform(0, 3))*u.day)
        elif op == 'birth':
            st.birth_spots(gen.CANONICAL(mission.birth_time(st.spot_generator, 'spots', st.radius, rng), 'time'))
            st.birth_faculae(gen.CANONICAL(mission.birth_time(st.fac_generator, 'fac', st.radius, rng), 'time'))
        elif op == 'mature':
            st.generate_mature_spots(.005)
        else:
            st.get_flares_over_observation(.3*u.day)
            out.append([float(d['timearea'].to_value('km2 hr')) for d in
                        st.get_flare_int_over_timeperiod(.1*u.day, .3*u.day, gen.obs(la, lo))])
        out.append(gen.star_state(st))
        yield out


def preempt(ctx, rng):
    kind = gen.pick(rng, ['rect', 'rect', 'spiral', None])
    ss = [int(rng.integers(1 << 31)) for _ in range(int(rng.integers(2, 4)))]
    alone = [[digest(x) for x in short(s, kind)] for s in ss]
    got, err = [[] for _ in ss], []

    def body(i):
        try:
            for x in short(ss[i], kind):
                got[i].append(digest(x))
        except BaseException as e:   # reported by the main thread
            err.append(f'{type(e).__name__}: {e}')
    b = Baton(len(ss), int(rng.integers(1 << 31)), float(gen.pick(rng, [.02, .1, .3])))
    done = b.run([lambda i=i: body(i) for i in range(len(ss))])
    ctx.ok(done, 'simulations in threads do not finish', scripts=ss)
    ctx.ok(not err, f'a simulation failed when preempted for another: {err[:1]}', scripts=ss)
    for i in range(len(ss)):
        check(ctx, got[i], alone[i], 'preempted', 'preempted steps compared', scripts=ss, kind=kind)
    ctx.event('preemptions inside the package', b.switches)
    ctx.event('places of preemption', len(b.places))
    ctx.key('b', ss, kind)


def rounds(script, kind):
    """a brief simulation that does everything a star does, once or twice"""
    rng = np.random.default_rng(script)
    st, spec = mission.make(rng, kind=kind, nspots=2, nfac=1)
    st.birth_spots(gen.CANONICAL(mission.birth_time(st.spot_generator, 'spots', st.radius, rng), 'time'))
    for k in range(2):
        la, lo = gen.view(rng, spec)
        p = dict(gen.planet(rng, spec['radius']), phase=180.*(1-k), inc=90., rp=.2*spec['radius'])
        out = [canon(x) for x in st.calc_coverage(gen.obs(la, lo), granulation_fraction=.2, **gen.planet_kw(p))]
        out += [canon(st.spots.get_coverage(st.radius)), canon(st.get_mu(la*u.deg, lo*u.deg)), canon(st.get_jacobian())]
        st.age(float(rng.uniform(0, 2))*u.day)
        st.birth_faculae(gen.CANONICAL(mission.birth_time(st.fac_generator, 'fac', st.radius, rng), 'time'))
        st.generate_mature_spots(.003)
        st.get_flares_over_observation(.3*u.day)
        if len(st.flares.flares) > 6:
            st.flares = FlareCollection(st.flares.flares[:6])
        out.append([float(d['timearea'].to_value('km2 hr')) for d in
                    st.get_flare_int_over_timeperiod(.1*u.day, .3*u.day, gen.obs(la, lo))])
        shape = (9, 7) if isinstance(spec['grid'], int) else tuple(spec['grid'])
        out.append(canon(st.gridmaker.display_grid(*shape, st.add_faculae_to_map(la*u.deg, lo*u.deg))[2]))
        out.append(gen.star_state(st))
        yield out


MEET = 24


def meet(ctx, rng):
    """one simulation is stopped inside a function of the package while another, in a thread of its own, runs from
    beginning to end"""
    kind = gen.pick(rng, ['rect', 'spiral', None])
    a, b = (int(rng.integers(1 << 31)) for _ in range(2))
    alone = [digest(x) for x in rounds(a, kind)]
    other = [digest(x) for x in rounds(b, kind)]
    files = Baton(1, 0, 0).files
    seen = {}
    count = [0]
    stops, err = {}, []

    def run(hit):
        def line(frame, event, arg):
            if event == 'line':
                count[0] += 1
                hit(frame)
            return line

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            return line if name.startswith(files) and not name.endswith('granules.py') else None
        count[0] = 0
        out = []
        sys.settrace(trace)
        try:
            for x in rounds(a, kind):
                out.append(digest(x))
        finally:
            sys.settrace(None)
        return out
    run(lambda fr: seen.setdefault(fr.f_code.co_qualname, {}).setdefault(fr.f_lineno, []).append(count[0]))
    names = sorted(seen)
    for i in rng.permutation(len(names))[:MEET]:
        for j in rng.permutation(len(seen[names[i]]))[:1]:
            at = list(seen[names[i]].values())[j]
            stops[at[int(rng.integers(len(at)))]] = names[i]

    def meanwhile(place):
        got = []

        def body():
            try:
                got.extend(digest(x) for x in rounds(b, kind))
            except BaseException as e:
                err.append(f'{type(e).__name__}: {e} (the other one was in {place})')
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(60)
        if t.is_alive():        # it waits for what the stopped one holds: nothing to be said
            ctx.event('meetings that waited')
            return
        if not err:
            check(ctx, got, other, f'while another is in {place}', 'steps of meetings compared', scripts=(a, b), kind=kind)
        ctx.event('meetings')
        ctx.key('place', place)
    got = run(lambda fr: meanwhile(stops[count[0]]) if count[0] in stops else None)
    ctx.ok(not err, f'a simulation failed while another was stopped: {err[:1]}', scripts=(a, b))
    check(ctx, got, alone, f'stopped in {sorted(stops.values())}', 'steps of meetings compared', scripts=(a, b), kind=kind)


class Shared:
    """hands out the same Quantity object for the same value, and knows what each was"""

    def __init__(self):
        self.pool, self.was = {}, {}

    def __call__(self, value, kind):
        k = (kind, repr(value))
        if k not in self.pool:
            self.pool[k] = gen.CANONICAL(value, kind)
            self.was[k] = canon(self.pool[k])
        return self.pool[k]

    def check(self, ctx, what):
        for k, q in self.pool.items():
            ctx.ok(same(canon(q), self.was[k]), f'{what} changed a quantity of the caller ({k}): now {q}')
            ctx.event('shared quantities compared')


def siblings(ctx, rng):
    """features from the same quantity objects, changed one at a time"""
    q = Shared()
    radius = float(gen.loguni(rng, .1, 2)*gen.RS)
    gp = gen.grid(rng)
    s = gen.spot(rng, radius, big=False)
    f = gen.facula(rng, radius, big=False)
    s['growing'], f['growing'] = bool(rng.random() < .5), bool(rng.random() < .5)
    n = 3
    sp = [gen.mk_spot(s, q, grid_params=gp) for _ in range(n)]
    fa = [gen.mk_facula(f, q, grid_params=gp) for _ in range(n)]
    r = np.random.default_rng(int(rng.integers(1 << 40)))
    sg, fg = gen.mk_spotgen(gen.spotgen_spec(rng, radius), r, q, grid_params=gp), gen.mk_facgen(gen.facgen_spec(rng, radius), r, q, grid_params=gp)
    sp += list(sg.generate_spots(2))
    fa += list(fg.generate_faculae(2))
    sp += list(sg.generate_mature_spots(1e-4, q(radius, 'len')))[:3]
    params = lambda g: {k: canon(v) for k, v in vars(g).items() if isinstance(v, (u.Quantity, float, int, str))}
    gens = [params(sg), params(fg)]
    # two collections and two stars next to each other
    ca, cb = SpotCollection(grid_params=gp), SpotCollection(grid_params=gp)
    fca, fcb = FaculaCollection(grid_params=gp), FaculaCollection(grid_params=gp)
    spec = gen.star(rng, big=False)
    stars = [gen.mk_star(spec, q) for _ in range(2)]

    def states():
        return dict(spots=[gen.spot_state(x) for x in sp], fac=[gen.facula_state(x) for x in fa],
                    coll=[len(ca.spots), len(cb.spots), len(fca.faculae), len(fcb.faculae)],
                    stars=[gen.star_state(x) for x in stars])
    before = states()
    for k in range(8):
        t = q(float(gen.pick(rng, [.1, 1., 5., 30.])), 'time')
        op = gen.pick(rng, ['spot', 'spot', 'fac', 'fac', 'coll', 'star', 'adds', 'set'])
        who = None
        if op == 'spot':
            i = int(rng.integers(len(sp)))
            sp[i].age(t)
            who = ('spots', i)
        elif op == 'fac':
            i = int(rng.integers(len(fa)))
            fa[i].age(t)
            who = ('fac', i)
        elif op == 'coll':
            a, b = [gen.mk_spot(s, q, grid_params=gp)], [gen.mk_facula(f, q, grid_params=gp)]
            ca.add_spot(a)
            fca.add_faculae(b)
            ca.add_spot(gen.mk_spot(s, q, grid_params=gp))
            fca.add_faculae(gen.mk_facula(f, q, grid_params=gp))
            ctx.ok(len(a) == 1 and len(b) == 1, 'adding to a collection changed a list that was added before')
            who = ('coll', None)
        elif op == 'star':
            i = int(rng.integers(2))
            stars[i].age(t)
            stars[i].calc_coverage(gen.obs(*gen.view(rng, spec)))
            who = ('stars', i)
        elif op == 'adds':
            i = int(rng.integers(2))
            stars[i].add_spot([gen.mk_spot(s, q, grid_params=gp)])
            stars[i].add_fac([gen.mk_facula(f, q, grid_params=gp)])
            who = ('stars', i)
        else:
            i = int(rng.integers(2))
            stars[i].teff = q(3333., 'temp')
            stars[i].u1 = .1
            who = ('stars', i)
        now = states()
        for part in now:
            for j, (a, b) in enumerate(zip(before[part], now[part])):
                if part == who[0] and (who[1] is None and j in (0, 2) or j == who[1]):
                    continue
                ctx.ok(a == b, f'{op} on {who} changed {part}[{j}]', before=a, after=b)
                ctx.event('bystanders compared')
        before = now
        q.check(ctx, op)
        for g, was in zip((sg, fg), gens):
            ctx.ok({k: v for k, v in params(g).items() if k in was}.keys() == was.keys() and all(same(params(g)[k], was[k]) for k in was),
                   f'{op} on {who} changed the parameters of {type(g).__name__}')
    # new features still start from the configured values
    init = gen.spot_state(sg.generate_spots(1)[0])['area']
    ctx.ok(abs(init-sg.init_area.to_value(gen.MSH)) <= 1e-9*init, 'a new spot does not start from the configured area')
    ctx.key('s', ctx.current[1], gp)


def defaults(ctx, rng):
    """components that were not given are each star's own: reconfiguring those of one star changes no other, old or new"""
    def make():
        return Star(3000*u.K, 1*u.R_sun, 5*u.day, SpotCollection(grid_params=40), FaculaCollection(grid_params=40), grid_params=40,
                    rng=np.random.default_rng(3))

    def seen(st):
        t = np.linspace(0, 1, 5)*u.day
        gr = st.granulation
        st.birth_spots(10*u.day)
        st.birth_faculae(10*u.day)
        st.get_flares_over_observation(10*u.day)
        return [canon(np.asarray(st.get_granulation_coverage(t))), {k: canon(v) for k, v in gr.params.items()}, canon(gr.dteff), gr.seed,
                [{k: canon(v) for k, v in vars(g).items() if isinstance(v, (u.Quantity, float, int, str))} for g in
                 (st.spot_generator, st.fac_generator, st.flare_generator)],
                len(st.spots.spots), len(st.faculae.faculae), len(st.flares.flares), canon(st.teff), st.u1, st.u2, canon(st.map)]
    a, b = make(), make()
    want = seen(b)
    what = gen.pick(rng, ['gran', 'gran', 'spots', 'fac', 'flares', 'collections', 'dict'])
    if what == 'gran':
        a.granulation.dteff = 200*u.K
        a.granulation.params.update(mean=.4, scale=0.)
        a.granulation.seed = 17
    elif what == 'spots':
        a.spot_generator.coverage, a.spot_generator.decay_rate, a.spot_generator.growth_rate = .2, 3*gen.MSH/u.day, .5/u.day
        a.birth_spots(1*u.day)
    elif what == 'fac':
        a.fac_generator.coverage = 1e-9
        a.fac_generator.depth = 33*u.km
    elif what == 'flares':
        a.flare_generator.min_energy, a.flare_generator.dist_fwhm_mean, a.flare_generator.dist_teff_mean = 1e33*u.erg, 1*u.hr, 9000*u.K
        a.get_flares_over_observation(3*u.day)
    elif what == 'collections':
        a.add_spot(gen.mk_spot(gen.spot(rng, ref.RSUN_KM, big=False), grid_params=40))
        a.add_fac(gen.mk_facula(gen.facula(rng, ref.RSUN_KM, big=False), grid_params=40))
    else:
        a.u1, a.u2, a.teff = .3, .1, 3100*u.K
        a.flare_generator.cluster_size = 5
    for k, st in (('an older', b), ('a new', make())):
        got = seen(st)
        for x, y in zip(got, want):
            ctx.ok(digest(x) == digest(y), f'reconfiguring the {what} of one star changed {k} one', before=y, after=x)
        ctx.event('default components compared', 3)
    ctx.key('d', what, ctx.current[1])


WORKLOADS = [('interleave', interleave, 16, 400), ('threads', threads, 16, 300), ('preempt', preempt, 24, 400), ('meet', meet, 24, 400), ('pristine', pristine, 4, 20), ('variants', variants, 4, 60), ('siblings', siblings, 60, 1500), ('defaults', defaults, 16, 200)]
