"""Monitors on the public interface of the running code.

`install(ctx, {'Star.calc_coverage': (judge, pre)})` wraps the real methods for the rest of the
process. Every call made by a workload or by the package itself is judged; calls made by a judge are
not. A violation is raised at once and also kept, in case the code under test swallows it.
"""
import functools
import inspect

import vspec_vsm.coordinate_grid as cg
import vspec_vsm.faculae as fa
import vspec_vsm.flares as fl
import vspec_vsm.granules as gr
import vspec_vsm.spots as sp
import vspec_vsm.star as st

from . import core

CLASSES = dict(Star=st.Star, StarSpot=sp.StarSpot, SpotCollection=sp.SpotCollection,
               SpotGenerator=sp.SpotGenerator, Facula=fa.Facula, FaculaCollection=fa.FaculaCollection,
               FaculaGenerator=fa.FaculaGenerator, StellarFlare=fl.StellarFlare,
               FlareCollection=fl.FlareCollection, FlareGenerator=fl.FlareGenerator,
               Granulation=gr.Granulation, CoordinateGrid=cg.CoordinateGrid,
               RectangularGrid=cg.RectangularGrid, SpiralGrid=cg.SpiralGrid)
_judging = 0
_installed = []


class quiet:
    """Calls made inside are not judged."""

    def __enter__(self):
        global _judging
        _judging += 1

    def __exit__(self, *a):
        global _judging
        _judging -= 1


def _wrap(ctx, name, orig, judge, pre):
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def wrapper(self, *a, **k):
        if _judging:
            return orig(self, *a, **k)
        try:
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            args = dict(list(b.arguments.items())[1:])
        except TypeError:
            return orig(self, *a, **k)
        before = None
        if pre is not None:
            with quiet():
                before = pre(ctx, self, args)
        out = orig(self, *a, **k)
        try:
            with quiet():
                judge(ctx, self, args, out, before)
        except core.Violation as v:
            ctx.pending.append(v)
            raise
        return out
    wrapper.__wrapped_by_vsm__ = orig
    return wrapper


def install(ctx, table):
    ctx.pending = []
    for name, spec in table.items():
        judge, pre = spec if isinstance(spec, tuple) else (spec, None)
        cls, meth = name.split('.')
        cls = CLASSES[cls]
        attr = inspect.getattr_static(cls, meth)
        if isinstance(attr, property):
            w = property(_wrap(ctx, name, attr.fget, judge, pre), attr.fset, attr.fdel)
        else:
            w = _wrap(ctx, name, attr, judge, pre)
        _installed.append((cls, meth, attr, meth in cls.__dict__))
        setattr(cls, meth, w)


def uninstall():
    while _installed:
        cls, meth, attr, own = _installed.pop()
        if own:
            setattr(cls, meth, attr)
        else:
            delattr(cls, meth)


def monitored(table):
    """Decorator for a workload: run it with the monitors of `table` installed."""
    def deco(fn):
        @functools.wraps(fn)
        def run(ctx, rng, *args):
            install(ctx, table)
            try:
                fn(ctx, rng, *args)
            finally:
                uninstall()
            if ctx.pending:
                raise ctx.pending[0]
        return run
    return deco
