"""Running verification tasks: a task is a function t(E) that declares the
specification (folds, constants) and returns a function executed on every
path.  Everything a task proves is an obligation."""
import time
import traceback

import z3

from .engine import (Engine, Unsupported, PyExc, PathEnd, Obligation, PKG,
                     ReturnEx, BreakEx, ContinueEx)
from .interp import PoisonRead
from .types import JoinError
from .loops import Retype


class Task(object):
    def __init__(self, name, fn, modules=(), float_mode='real', covers=(),
                 max_paths=3000, budget=300, functions=()):
        self.name, self.fn, self.modules = name, fn, modules
        self.float_mode, self.covers = float_mode, covers
        self.max_paths, self.budget = max_paths, budget
        self.functions = functions


class Result(object):
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.undecided = None       # text: outside the verified subset
        self.functions = set()
        self.contracts = set()
        self.externals = set()
        self.assumptions = set()
        self.invariants = []
        self.secs = self.solver_secs = 0.0
        self.queries = self.paths = 0

    def ok(self):
        return self.undecided is None and self.obligations and all(
            o.status == 'proved' for o in self.obligations)

    def todict(self):
        return {'task': self.name, 'undecided': self.undecided,
                'obligations': [
                    {'name': o.name, 'status': o.status, 'solver': o.solver,
                     'secs': round(o.secs, 3), 'detail': o.detail,
                     'model': o.model} for o in self.obligations],
                'functions': sorted(self.functions),
                'contracts': sorted(self.contracts),
                'externals': sorted(self.externals),
                'assumptions': sorted(self.assumptions),
                'invariants': self.invariants[:40],
                'secs': round(self.secs, 2),
                'solver_secs': round(self.solver_secs, 2),
                'queries': self.queries, 'paths': self.paths}


def run_task(asts, task):
    res = Result(task.name)
    t0 = time.time()
    tracked = set()
    for attempt in range(12):
        E = Engine(asts, task.float_mode, task.max_paths,
                   time.time() + task.budget)
        E.tracked = tracked
        res.obligations, res.undecided = E.obligations, None
        E.reached = set()
        try:
            for m in ('_abcoll',) + tuple(PKG + x for x in task.modules):
                if E.module(m) is None and m != '_abcoll':
                    raise Unsupported('module %s is missing' % m)
            E.B.prelude(E, 'sum')
            loaded = sorted(E.modules)
            body = task.fn(E)
            for m in loaded:        # (again, with what the contract assumes)
                E.module(m)

            def wrapped():
                try:
                    body()
                except PyExc as e:
                    cls = E.h(e.value).cls.name
                    E.prove('no unexpected %s escapes (line %s:%s, %r)' % (
                        cls, E.line[0], E.line[1],
                        E.h(e.value).attrs.get('args')), z3.BoolVal(False))
            if body is not None:
                E.explore(wrapped)
            for key in sorted(E.lemmas):
                E.lemmas[key]()
            for c in task.covers:
                if c not in E.reached:
                    E.obligations.append(Obligation(
                        'cover: %s is reachable' % c, 'refuted', 0, 'z3',
                        'no feasible path reaches it'))
        except PoisonRead as p:
            key = p.key
            if key in tracked:
                res.undecided = 'possibly unbound variable %s' % (key[1],)
                break
            tracked.add(key)
            continue
        except (Unsupported, JoinError, z3.Z3Exception, Retype,
                RecursionError, KeyError, TypeError, AttributeError,
                IndexError, ValueError, AssertionError, BreakEx, ReturnEx,
                ContinueEx) as e:
            res.undecided = '%s: %s (at %s:%s)' % (
                type(e).__name__, e, E.line[0], E.line[1])
            res.trace = traceback.format_exc()
        break
    else:
        res.undecided = 'too many restarts'
    res.functions, res.contracts = E.used_functions, E.used_contracts
    res.externals, res.assumptions = E.used_externals, E.assumptions
    res.invariants = E.loop_invs
    res.secs = time.time() - t0
    res.solver_secs = E.solver_secs
    res.queries, res.paths = E.queries, E.paths
    return res


def reach(E, name):
    """mark a point that must be reachable"""
    if name not in E.reached and E.record and E.feasible():
        E.reached.add(name)
