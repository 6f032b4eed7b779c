"""A deductive verifier for the subset of Python 2 used by openquake.commonlib.

The verified text is the AST of the files of /repo, dumped on every run by the
interpreter that runs them.  Functions are executed symbolically path by path;
loops over symbolic sequences are cut by inductive invariants (found among the
candidates given by the contracts, Houdini style); every claim becomes a named
obligation discharged by z3 (cvc5 as second solver on `unknown`).
"""
import itertools
import json
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

import z3

from .types import (T, TInt, TReal, TBool, TStr, TFP, TNone, TBot, TObj, TSeq,
                    TTup, TStruct, TOpt, TMap, TSet, join, JoinError)

sys.setrecursionlimit(20000)

PKG = 'openquake.commonlib.'


class Unsupported(Exception):
    """The construct is outside the verified subset: undecided."""


class PathEnd(Exception):
    """This path needs no further execution."""


class PyExc(Exception):
    """A Python exception raised by the program."""
    def __init__(self, value):
        Exception.__init__(self, value)
        self.value = value      # Ref to an HInst of an exception class


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Through(Exception):
    """an exception of the consumer of a generator, on its way through the
    frames of the generator"""
    def __init__(self, token, exc):
        Exception.__init__(self, 'through')
        self.token, self.exc = token, exc


# ------------------------------------------------------------------ values
class Sym(object):
    __slots__ = ('t', 'e')

    def __init__(self, t, e):
        self.t, self.e = t, e

    def __repr__(self):
        return '<%s %s>' % (self.t.name, str(self.e)[:60])


class Ref(object):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return '<ref %d>' % self.oid


class Poison(object):
    """A local that must not be read (dead at a loop head)."""
    def __init__(self, why):
        self.why = why


class Maybe(object):
    """A local that may be unbound."""
    def __init__(self, flag, value):
        self.flag, self.value = flag, value


class HObj(object):
    frozen = False

    def clone(self):
        raise NotImplementedError


class HList(HObj):
    """content: python list of values, or Sym of a TSeq"""
    def __init__(self, content, cls=None):
        self.content = content
        self.cls = cls          # ClassV for list subclasses
        self.attrs = {}

    def clone(self):
        c = self.content
        h = HList(list(c) if isinstance(c, list) else c, self.cls)
        h.attrs = dict(self.attrs)
        h.frozen = self.frozen
        return h


class HView(HList):
    """the list stored under a key of a symbolic dictionary"""
    def __init__(self, E, owner, key, ver):
        self.E, self.owner, self.key, self.ver = E, owner, key, ver
        self.cls, self.attrs = None, {}

    def clone(self):
        h = HView(self.E, self.owner, self.key, self.ver)
        h.frozen = self.frozen
        return h

    def dict(self):
        d = self.E.st.heap[self.owner.oid]
        if d.m is None or d.ver != self.ver:
            raise Unsupported('a list taken from a dictionary which has '
                              'changed since')
        return d

    @property
    def content(self):
        m = self.dict().m
        return Sym(m.t.v, z3.Select(m.t.val(m.e), self.key))

    @content.setter
    def content(self, c):
        d, t = self.dict(), None
        if d.frozen or d.leaked:
            raise Unsupported('change of a list which is also kept outside '
                              'its dictionary')
        t = d.m.t
        if isinstance(c, list) or c.t != t.v:
            raise Unsupported('a list of another type in a dictionary')
        d.m = Sym(t, t.mk(t.has(d.m.e), z3.Store(t.val(d.m.e), self.key,
                                                 c.e)))


class HDict(HObj):
    """d: python dict (concrete keys) or None; m: Sym TMap; order: Sym TSeq"""
    def __init__(self, d=None, default=None):
        self.d = {} if d is None else d
        self.m = None
        self.keys = None        # Sym TSeq of keys, when tracked
        self.default = default
        self.onupdate = None    # a view: called (E, self) after a change
        self.fixed = {}         # with m: keys certainly there, whose values
                                # are kept apart (m says nothing of them)
        self.ordered = False    # keys in order of insertion
        self.leaked = False     # values of m may also be kept elsewhere
        self.ver = 0            # changes of keys and values of m (not
                                # through the lists it contains)

    def copy(self):
        self.leaked = True
        h = self.clone()
        h.onupdate = None
        return h

    def clone(self):
        h = HDict(dict(self.d) if self.d is not None else None, self.default)
        if self.d is None:
            h.d = None
        h.m = self.m
        h.keys = self.keys
        h.onupdate = self.onupdate
        h.frozen = self.frozen
        h.fixed = dict(self.fixed)
        h.ordered, h.leaked, h.ver = self.ordered, self.leaked, self.ver
        return h


class HSet(HObj):
    """items: python list of values, or Sym TSet"""
    def __init__(self, items=None):
        self.items = [] if items is None else items

    def clone(self):
        h = HSet(list(self.items) if isinstance(self.items, list)
                 else self.items)
        h.frozen = self.frozen
        return h


class HInst(HObj):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def clone(self):
        h = HInst(self.cls, dict(self.attrs))
        h.frozen = self.frozen
        return h


class HGen(HObj):
    """A generator: run eagerly when first consumed."""
    def __init__(self, thunk, content=None):
        self.thunk = thunk      # thunk(emit or None) -> content
        self.content = content

    def clone(self):
        h = HGen(self.thunk, list(self.content)
                 if isinstance(self.content, list) else self.content)
        h.frozen = self.frozen
        return h


class HZip(HObj):
    """enumerate/zip/range: a lazy combination of iterables.  sources are
    values, ('count', start) or ('range', start, n)"""
    def __init__(self, sources, make):
        self.sources, self.make = sources, make

    def clone(self):
        h = HZip(list(self.sources), self.make)
        h.frozen = self.frozen
        return h


class FuncV(object):
    def __init__(self, name, node, module, closure, defaults, cls=None):
        self.name, self.node, self.module = name, node, module
        self.closure, self.defaults, self.cls = closure, defaults, cls
        self.attrs = {}
        self.is_gen = node['_'] != 'Lambda' and has_yield(node['body'])

    @property
    def qualname(self):
        q = self.name if self.cls is None else '%s.%s' % (
            self.cls.name, self.name)
        return '%s.%s' % (self.module.name.replace(PKG, ''), q)

    def __repr__(self):
        return '<func %s>' % self.qualname


class BoundV(object):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Descr(object):
    """property / classmethod / staticmethod"""
    def __init__(self, kind, f):
        self.kind, self.f = kind, f


class ClassV(object):
    local = False

    def __init__(self, name, bases, attrs, module=None, meta=None):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.module = module
        self.meta = meta

    def mro(self):
        # C3 for the simple hierarchies used here
        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported('mro of %s' % self.name)
                res.append(c)
                for t in seqs:
                    if t[0] is c:
                        del t[0]
        return [self] + merge([b.mro() for b in self.bases] +
                              [list(self.bases)])

    def lookup(self, a):
        for c in self.mro():
            if a in c.attrs:
                return c.attrs[a], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class ModuleV(object):
    def __init__(self, name):
        self.name = name
        self.env = {}

    def __repr__(self):
        return '<module %s>' % self.name


class ExtV(object):
    """A name outside the repository (module, class or function)."""
    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.dotted == self.dotted

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dotted)

    def __repr__(self):
        return '<ext %s>' % self.dotted


class TermV(object):
    """The result of calling something external: a term, compared by its
    parts.  args/kwargs are engine values."""
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)

    def __repr__(self):
        return '%s(%s)' % (self.fn, ', '.join(
            [repr(a) for a in self.args] +
            ['%s=%r' % kv for kv in sorted(self.kwargs.items())]))


class UFun(object):
    """A function value given by the specification."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<ufun %s>' % self.name


def seq_parts(t, e):
    """(kind, parts) of the head symbol of a sequence term"""
    if z3.is_app(e):
        d = e.decl()
        if d.eq(t.sort().nil.decl()):
            return 'nil', ()
        if d.eq(t.sort().snoc):
            return 'snoc', (e.arg(0), e.arg(1))
        if d.eq(t.catfn()):
            return 'cat', (e.arg(0), e.arg(1))
        if d.kind() == z3.Z3_OP_ITE:
            return 'ite', (e.arg(0), e.arg(1), e.arg(2))
    return 'opaque', ()


class Fold(object):
    """spec function over sequences (with optional parameters ps):
         f(nil, *ps) = init,  f(snoc(p,x), *ps) = step(f(p, *ps), x, p, *ps)

    Applications are unfolded structurally when they are built.
    `hom`, if given, is a combine function with
         f(cat(a,b), *ps) = hom(f(a, *ps), f(b, *ps));
    it is proved by induction when the fold is registered."""
    def __init__(self, name, el, ret, init, step, params=(), hom=None,
                 auto=True):
        self.name, self.el, self.ret = name, el, ret
        self.dom = TSeq(el)
        self.params = list(params)
        self._init = init
        self.step = step
        self.hom = hom
        self.auto = auto
        self.hom_ok = False
        self.mono = None
        self.fn = z3.Function(name, *([self.dom.sort()] +
                                      [p.sort() for p in self.params] +
                                      [ret.sort()]))

    def init(self, *ps):
        return self._init(*ps) if callable(self._init) else self._init

    def __call__(self, s, *ps):
        if isinstance(s, Sym):
            s = s.e
        k, parts = seq_parts(self.dom, s)
        if k == 'nil':
            return self.init(*ps)
        if k == 'snoc':
            return self.step(self(parts[0], *ps), parts[1], parts[0], *ps)
        if k == 'ite':
            return z3.If(parts[0], self(parts[1], *ps), self(parts[2], *ps))
        if k == 'cat' and self.hom_ok:
            return self.hom(self(parts[0], *ps), self(parts[1], *ps))
        return self.fn(s, *ps)


# ------------------------------------------------------------- ast helpers
def walk(n, into_defs=True):
    if isinstance(n, dict):
        if '_' in n:
            yield n
            if not into_defs and n['_'] in ('FunctionDef', 'Lambda',
                                            'ClassDef', 'GeneratorExp'):
                return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                for x in walk(v, into_defs):
                    yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk(v, into_defs):
                yield x


def has_yield(body):
    return any(n['_'] == 'Yield' for n in walk(body, False))


def assigned_names(body):
    """names bound in a function body (its locals)"""
    res = set()
    for n in walk(body, False):
        if n['_'] == 'Name' and n['ctx']['_'] in ('Store', 'AugStore', 'Del',
                                                  'Param'):
            res.add(n['id'])
        elif n['_'] in ('FunctionDef', 'ClassDef'):
            res.add(n['name'])
        elif n['_'] in ('Import', 'ImportFrom'):
            for a in n['names']:
                res.add((a['asname'] or a['name']).split('.')[0])
        elif n['_'] == 'Global':
            pass
    return res


def frac(x):
    if isinstance(x, float):
        return Fraction(x)
    return Fraction(x)


class Frame(object):
    __slots__ = ('fid', 'func', 'module', 'closure', 'locals_', 'cls', 'out',
                 'emit')

    def __init__(self, fid, func, module, closure, locals_, cls=None):
        self.fid, self.func, self.module = fid, func, module
        self.closure, self.locals_, self.cls = closure, locals_, cls
        self.out = None         # oid of the HList collecting yields
        self.emit = None        # or a callback


class State(object):
    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.arrays = {}        # (objtype name, attr) -> z3 array
        self.ghost = {}         # name -> value
        self.origins = {}       # id of a list term -> what it maps/filters

    def clone(self):
        s = State()
        s.frames = dict((k, dict(v)) for k, v in self.frames.items())
        s.heap = dict((k, v.clone()) for k, v in self.heap.items())
        s.arrays = dict(self.arrays)
        s.ghost = dict(self.ghost)
        s.origins = dict(self.origins)
        return s


class Obligation(object):
    def __init__(self, name, status, secs, solver, detail='', model=None):
        self.name, self.status, self.secs = name, status, secs
        self.solver, self.detail, self.model = solver, detail, model


BUILTIN_EXC = '''
BaseException -
Exception BaseException
StandardError Exception
ArithmeticError StandardError
OverflowError ArithmeticError
ZeroDivisionError ArithmeticError
AssertionError StandardError
AttributeError StandardError
EnvironmentError StandardError
IOError EnvironmentError
OSError EnvironmentError
LookupError StandardError
IndexError LookupError
KeyError LookupError
NameError StandardError
UnboundLocalError NameError
RuntimeError StandardError
NotImplementedError RuntimeError
TypeError StandardError
ValueError StandardError
UnicodeError ValueError
StopIteration Exception
SyntaxError StandardError
ImportError StandardError
EOFError StandardError
UnicodeDecodeError UnicodeError
GeneratorExit BaseException
KeyboardInterrupt BaseException
SystemExit BaseException
'''

OBJECT = ClassV('object', [], {})
TYPES = {}
for _n in ('str', 'int', 'long', 'float', 'bool', 'list', 'tuple', 'dict',
           'set', 'frozenset', 'unicode', 'type', 'complex'):
    TYPES[_n] = ClassV(_n, [OBJECT], {})
TYPES['basestring'] = ClassV('basestring', [OBJECT], {})
TYPES['str'].bases = [TYPES['basestring']]
TYPES['unicode'].bases = [TYPES['basestring']]
TYPES['bool'].bases = [TYPES['int']]
EXC = {}
for _l in BUILTIN_EXC.split('\n'):
    if _l.strip():
        _n, _b = _l.split()
        EXC[_n] = ClassV(_n, [OBJECT if _b == '-' else EXC[_b]], {})


class Program(object):
    """The dumped ASTs plus lazily evaluated modules."""
    def __init__(self, asts):
        self.asts = asts
        self.prelude = None


_MEM = {}


class Forced(int):
    """a branch with one feasible side"""


class EngineCore(object):
    TIMEOUT_MS = 10000
    FEAS_MS = 2000
    HOUDINI_MS = 3000
    MEM = _MEM

    def __init__(self, asts, float_mode='real', max_paths=4000,
                 deadline=None):
        self.asts = asts
        self.float_mode = float_mode
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', self.TIMEOUT_MS)
        self.pc = []
        self.st = State()
        self.modules = {}
        self.folds = {}         # seq type name -> [Fold]
        self.templates = []
        self.contracts = {}     # qualname -> callable(E, args, kwargs)
        self.externals = {}     # dotted -> callable(E, args, kwargs)
        self.obligations = []
        self.record = True
        self.used_functions = set()
        self.used_contracts = set()
        self.used_externals = set()
        self.assumptions = set()
        self.trace, self.pos, self.pending = [], 0, []
        self.trace0 = 0
        self.counter = 0
        self.expl = 0
        self.expl_id = 0
        self.loopinfo = {}
        self.depth = 0
        self.solver_secs = 0.0
        self.queries = 0
        self.instantiated = set()
        self.paths = 0
        self.frame_stack = []
        self.exc_stack = []
        self.loop_invs = []     # invariants used (reported)
        self.leafhooks = []
        self.ordfn = {}
        self.hole_roots = []
        # constants of the libraries the code imports
        self.ext_values = {'openquake.nrmllib.NAMESPACE':
                           'http://openquake.org/xmlns/nrml/0.4'}
        self.builtins = {}
        self.builtins_types = {}
        self.extclasses = {}
        self.construct = {}
        # classes whose instances are kept in containers as values of an
        # opaque sort: name -> (TObj, term of an instance)
        self.value_types = {}
        self.ext_default = None
        self.genexps = {}
        self.verifying, self.verifying_depth = None, 0
        self.loading = 0
        self.line = (None, None)
        self.loop_p = []
        self.tracked = set()
        self.refs = None
        self.while_cut = False
        self.dict_symbolic = False
        self.prove_variant = None
        self.zip_bases = []
        self.mates = []
        self.split_hooks = [self.set_split]
        self.set_hooks = []
        self.languages = []     # patterns of the specification
        self.seqlens = {}
        self.decisions = None   # the conditions of this path, if collected
        self.synth = {}         # maps and filters found in loops
        self.lemmas = {}        # facts used, proved at the end of the task
        self.frames_now = []
        from . import builtins_
        self.B = builtins_
        builtins_.install(self)

    def cur_frame(self):
        return self.frames_now[-1] if self.frames_now else self.B.dummy_frame(
            self)

    def ntfields(self, h):
        f, _ = h.cls.lookup('_fields')
        return f if isinstance(f, tuple) else None

    # ------------------------------------------------------------- solver
    def fresh_id(self):
        self.counter += 1
        return self.counter

    def fresh(self, name, t):
        return Sym(t, self.reg(t, z3.Const('%s!%d' % (name, self.fresh_id()),
                                           t.sort())))

    def const(self, name, t):
        return Sym(t, self.reg(t, z3.Const(name, t.sort())))

    def reg(self, t, e):
        """register a new sequence term: ground facts about len"""
        if isinstance(t, TSeq):
            self.note_seq(t, e)
        return e

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def _check(self, ms=None):
        self.check_deadline()
        t0 = time.time()
        self.solver.set('timeout', ms or self.TIMEOUT_MS)
        r = self.solver.check()
        self.solver_secs += time.time() - t0
        self.queries += 1
        return r

    def assume(self, e):
        if e is True or z3.is_true(e):
            return
        if e is False:
            e = z3.BoolVal(False)
        self.pc.append(e)
        self.solver.add(e)

    def feasible(self, e=None):
        self.solver.push()
        if e is not None:
            self.solver.add(e)
        r = self._check(self.FEAS_MS)
        self.solver.pop()
        return r != z3.unsat

    def valid(self, e, ms=None):
        """(status, model): is e entailed by the path condition"""
        if z3.is_true(e):
            return 'proved', None
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self._check(ms)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', m
        return 'unknown', None

    def prove(self, name, e, detail=''):
        """A named obligation."""
        if not self.record or self.pos < self.trace0:
            return              # (already proved on the parent path)
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if isinstance(e, Sym):
            e = e.e
        t0 = time.time()
        st, m = self.valid(e, 4000)
        solver = 'z3'
        if st == 'unknown':
            st2 = self.second_solver(e)
            if st2 == 'unsat':
                st, solver = 'proved', 'cvc5'
            else:
                st, m = self.valid(e, 20000)
        text = None
        if m is not None:
            try:
                text = dict((str(d), str(m[d])[:300]) for d in m.decls()
                            if d.arity() == 0)
            except Exception:
                text = None
        self.obligations.append(Obligation(
            name, st, time.time() - t0, solver,
            detail or (str(z3.simplify(e))[:600] if st != 'proved' else ''),
            text))

    def have(self, name, e):
        """prove, then use"""
        self.prove(name, e)
        self.assume(e)

    def second_solver(self, e):
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(z3.Not(e))
        try:
            import cvc5  # noqa
        except ImportError:
            return 'unknown'
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
            out = subprocess.run(['cvc5', '--tlimit=20000', path],
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, timeout=30)
            return out.stdout.decode().strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(path)

    # ------------------------------------------------------------ paths
    def branch(self, c):
        """Fork on a z3 Bool; returns the Python bool of this path."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.pending.append(self.trace[:self.pos] + [False])
                d = True
            elif t:
                d = Forced(1)
            elif f:
                d = Forced(0)
            else:
                raise PathEnd('infeasible')
            self.trace.append(d)
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        if self.decisions is not None and not isinstance(d, Forced):
            self.decisions.append(c if d else z3.Not(c))
        return bool(d)

    def choose(self, n):
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace[:self.pos] + [k])
            d = 0
            self.trace.append(d)
        self.pos += 1
        return d

    def explore(self, fn, record=None):
        """Run fn() on every path from the current state; the state is
        restored afterwards."""
        saved = (self.trace, self.pos, self.pending, self.st, self.counter,
                 len(self.pc), self.instantiated, self.record,
                 list(self.frame_stack), list(self.exc_stack), self.expl_id,
                 self.trace0, list(self.frames_now), list(self.loop_p))
        pending = [[]]
        self.expl += 1
        self.expl_id = self.expl
        n = 0
        if record is not None:
            self.record = record
        try:
            while pending:
                n += 1
                if n > self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
                self.paths += 1
                self.trace = pending.pop()
                self.trace0 = len(self.trace)
                self.pos = 0
                self.pending = pending
                self.st = saved[3].clone()
                self.counter = saved[4]
                self.instantiated = set(saved[6])
                self.frame_stack = list(saved[8])
                self.exc_stack = list(saved[9])
                self.frames_now = list(saved[12])
                self.loop_p = list(saved[13])
                self.solver.push()
                pclen = len(self.pc)
                try:
                    fn()
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                    del self.pc[pclen:]
        finally:
            (self.trace, self.pos, self.pending, self.st, self.counter, _n,
             self.instantiated, self.record, self.frame_stack,
             self.exc_stack, self.expl_id, self.trace0, self.frames_now,
             self.loop_p) = saved
            del self.pc[saved[5]:]
        return n

    # ------------------------------------------------------- sequences
    def add_fold(self, fold):
        self.folds.setdefault(fold.dom.name, []).append(fold)
        if fold.hom is not None:
            self.lemma_hom(fold)
            fold.hom_ok = True
        elif fold.ret is TBool and not fold.params:
            self.lemma_mono(fold)
        return fold

    def lemma_mono(self, fold):
        """a flag that never comes back: f(cat(a,b)) => f(a), or f(a) =>
        f(cat(a,b)); each by induction on b from the step"""
        t = fold.dom
        a = z3.Const('mono_a', z3.BoolSort())
        x = z3.Const('mono_x', fold.el.sort())
        p = z3.Const('mono_p', t.sort())
        st = fold.step(a, x, p)
        for kind, e in (('and', z3.Implies(st, a)), ('or',
                                                     z3.Implies(a, st))):
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(z3.Not(e))
            if s.check() == z3.unsat:
                self.prove('lemma %s is monotone' % fold.name, e)
                fold.mono = kind
                return

    def lemma_hom(self, fold):
        """f(cat(a,b)) == hom(f(a), f(b)) by induction on b; the claim at
        nil and at snoc(b,x) given the claim at b"""
        t = fold.dom
        a = z3.Const('lem_a', t.sort())
        b = z3.Const('lem_b', t.sort())
        x = z3.Const('lem_x', fold.el.sort())
        ps = [z3.Const('lem_p%d' % i, p.sort())
              for i, p in enumerate(fold.params)]
        self.solver.push()
        n = len(self.pc)
        self.prove('lemma %s homomorphic: base' % fold.name,
                   fold.hom(fold(a, *ps), fold.init(*ps)) == fold(a, *ps))
        fcat = z3.Const('lem_fcat', fold.ret.sort())   # f(cat(a,b))
        self.assume(fcat == fold.hom(fold(a, *ps), fold(b, *ps)))
        self.prove('lemma %s homomorphic: step' % fold.name,
                   fold.step(fcat, x, t.catfn()(a, b), *ps) ==
                   fold.hom(fold(a, *ps),
                            fold.step(fold(b, *ps), x, b, *ps)))
        self.solver.pop()
        del self.pc[n:]

    def induct(self, name, t, claim, using=None):
        """prove claim(s) for every sequence s of type t by induction; the
        claim (a function of a term) can then be assumed at any term.
        using(p, x): an instance of lemmas proved before, for the step"""
        p = z3.Const('ind_p', t.sort())
        x = z3.Const('ind_x', t.el.sort())
        self.solver.push()
        n, inst = len(self.pc), set(self.instantiated)
        self.reg(t, p)
        self.prove('lemma %s: base' % name, claim(t.nil))
        self.assume(claim(p))
        if using is not None:
            self.assume(using(p, x))
        self.prove('lemma %s: step' % name, claim(t.rawsnoc(p, x)))
        self.solver.pop()
        del self.pc[n:]
        self.instantiated = inst
        return claim

    def note_seq(self, t, e):
        """facts about an opaque sequence term"""
        key = ('len', t.name, e.get_id())
        if key in self.instantiated or seq_parts(t, e)[0] != 'opaque':
            return
        self.instantiated.add(key)
        self._keep.append(e)
        ln = t.lenfn()
        self.seqlens[ln.get_id()] = t
        self.assume(ln(e) >= 0)
        self.assume((ln(e) == 0) == (e == t.nil))
        for f, ps in self.fold_insts(t):
            self.assume(z3.Implies(e == t.nil,
                                   f.fn(e, *ps) == f.init(*ps)))

    _keep = []

    def len(self, t, e):
        k, parts = seq_parts(t, e)
        if k == 'nil':
            return z3.IntVal(0)
        if k == 'snoc':
            return self.len(t, parts[0]) + 1
        if k == 'cat':
            return self.len(t, parts[0]) + self.len(t, parts[1])
        if k == 'ite':
            return z3.If(parts[0], self.len(t, parts[1]),
                         self.len(t, parts[2]))
        self.note_seq(t, e)
        return t.lenfn()(e)

    def snoc(self, t, a, x):
        return t.rawsnoc(a, x)

    def cat(self, t, a, b):
        ka, _ = seq_parts(t, a)
        kb, pb = seq_parts(t, b)
        if ka == 'nil':
            return b
        if kb == 'nil':
            return a
        if kb == 'snoc':
            return self.snoc(t, self.cat(t, a, pb[0]), pb[1])
        if kb == 'cat':
            return self.cat(t, self.cat(t, a, pb[0]), pb[1])
        if kb == 'ite':
            return z3.If(pb[0], self.cat(t, a, pb[1]),
                         self.cat(t, a, pb[2]))
        e = t.catfn()(a, b)
        key = ('cat', t.name, e.get_id())
        if key not in self.instantiated:
            self.instantiated.add(key)
            self._keep.append(e)
            self.assume(z3.Implies(b == t.nil, e == a))
            self.assume(z3.Implies(a == t.nil, e == b))
            self.assume((e == t.nil) == z3.And(a == t.nil, b == t.nil))
        return e

    def memfold(self, t):
        key = 'mem#' + t.name
        if key not in _MEM:
            f = _MEM[key] = Fold(
                'mem_' + t.el.name, t.el, TBool, z3.BoolVal(False),
                lambda acc, y, p, x: z3.Or(acc, y == x), params=[t.el],
                hom=lambda a, b: z3.Or(a, b), auto=False)
            self.lemma_hom(f)
            f.hom_ok = True
        return _MEM[key]

    def member(self, seq, x):
        """membership in a symbolic sequence"""
        return self.memfold(seq.t)(seq.e, self.z(x, seq.t.el))

    # ------------------------------------------------------ types of values
    def typ(self, v):
        if isinstance(v, Sym):
            return v.t
        if v is None:
            return TNone
        if isinstance(v, bool):
            return TBool
        if isinstance(v, int):
            return TInt
        if isinstance(v, float):
            return TFP if self.float_mode == 'fp' else TReal
        if isinstance(v, Fraction):
            return TReal
        if isinstance(v, str):
            return TStr
        if isinstance(v, tuple):
            return TTup(*[self.typ(x) for x in v])
        if isinstance(v, Ref):
            h = self.st.heap[v.oid]
            if isinstance(h, HList):
                if isinstance(h.content, Sym):
                    return h.content.t
                t = TBot
                for x in h.content:
                    t = join(t, self.typ(x))
                return TSeq(t)
            if isinstance(h, HInst) and h.cls.name in self.value_types:
                return self.value_types[h.cls.name][0]
            if isinstance(h, HInst):
                return TStruct(h.cls.name, [
                    (n, self.typ(x)) for n, x in sorted(h.attrs.items())],
                    h.cls)
            if isinstance(h, HSet):
                if isinstance(h.items, Sym):
                    return h.items.t
                t = TBot
                for x in h.items:
                    t = join(t, self.typ(x))
                return TSet(t)
            if isinstance(h, HDict):
                if h.fixed:
                    raise JoinError('a dictionary of different things')
                if h.m is not None:
                    return h.m.t
                k = val = TBot
                for kk, vv in h.d.items():
                    k = join(k, self.typ(kk))
                    val = join(val, self.typ(vv))
                return TMap(k, val)
        if isinstance(v, (TermV, ExtV, ClassV, FuncV)):
            raise JoinError('no type for %r' % (v,))
        raise JoinError('no type for %r' % (v,))

    def default_of(self, t):
        return z3.Const('default!' + t.name, t.sort())

    def z(self, v, t, freeze=True):
        """the z3 term of value v at type t"""
        if isinstance(v, Sym):
            if v.t == t:
                return v.e
            if t is TReal and v.t is TInt:
                return z3.ToReal(v.e)
            if t in (TInt, TReal) and v.t is TBool:
                return z3.If(v.e, t.sort().cast(1), t.sort().cast(0))
            if isinstance(t, TOpt):
                if v.t is TNone:
                    return t.none
                if isinstance(v.t, TOpt):
                    return z3.If(v.t.is_none(v.e), t.none, t.some(
                        self.z(Sym(v.t.el, v.t.val(v.e)), t.el)))
                return t.some(self.z(v, t.el))
            if isinstance(v.t, TOpt) and v.t.el == t:
                # the caller knows it is not None
                st, _ = self.valid(z3.Not(v.t.is_none(v.e)))
                if st == 'proved':
                    return v.t.val(v.e)
            if isinstance(t, TObj) and v.t is TStr:
                return self.strinj(t)(v.e)
            if isinstance(t, TTup) and isinstance(v.t, TTup) and \
                    len(t.els) == len(v.t.els):
                return t.mk(*[self.z(self.proj(v, i), t.els[i])
                              for i in range(len(t.els))])
            if isinstance(t, TSeq) and isinstance(v.t, TSeq):
                k, parts = seq_parts(v.t, v.e)
                if k == 'nil':
                    return t.nil
            raise JoinError('%s as %s' % (v.t, t))
        if isinstance(t, TOpt):
            return t.none if v is None else t.some(self.z(v, t.el, freeze))
        if t is TNone and v is None:
            return z3.Const('None!', TNone.sort())
        if t is TBool and isinstance(v, bool):
            return z3.BoolVal(v)
        if t is TInt and isinstance(v, int):
            return z3.IntVal(int(v))
        if t is TReal and isinstance(v, (int, float, Fraction)):
            f = frac(v)
            return z3.RealVal(f)
        if t is TFP and isinstance(v, (int, float)):
            return z3.FPVal(float(v), TFP.sort())
        if t is TStr and isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(t, TObj) and (v is None or isinstance(
                v, (str, int, float, bool, ExtV, ClassV))):
            if v is None:
                return t.const('None')
            if isinstance(v, str):
                return self.strinj(t)(z3.StringVal(v)) \
                    if t.hooks.get('strinj') else t.const('s:' + v)
            return t.const(repr(v))
        if isinstance(t, TTup) and isinstance(v, tuple) and \
                len(v) == len(t.els):
            return t.mk(*[self.z(x, y, freeze) for x, y in zip(v, t.els)])
        if isinstance(t, TSeq) and isinstance(v, tuple):
            e = t.nil
            for x in v:
                e = self.snoc(t, e, self.z(x, t.el, freeze))
            return e
        if isinstance(v, Ref):
            h = self.st.heap[v.oid]
            if isinstance(t, TObj) and isinstance(h, HInst) and \
                    h.cls.name in self.value_types and \
                    self.value_types[h.cls.name][0] is t:
                h.frozen = True
                return self.value_types[h.cls.name][1](self, v)
            if isinstance(t, TSeq) and isinstance(h, (HList, HGen)):
                if freeze == 'deep':
                    self.freeze(v)
                c = self.content(v)
                if isinstance(c, Sym):
                    return self.z(c, t)
                e = t.nil
                for x in c:
                    e = self.snoc(t, e, self.z(x, t.el, freeze and 'deep'))
                return e
            if isinstance(t, TStruct) and isinstance(h, HInst):
                h.frozen = True
                return t.mk(**dict((n, self.z(h.attrs[n], ft, 'deep'))
                                   for n, ft in t.fields))
            if isinstance(t, TSet) and isinstance(h, HSet):
                if isinstance(h.items, Sym):
                    return self.z(h.items, t)
                e = z3.K(t.k.sort(), z3.BoolVal(False))
                for x in h.items:
                    e = z3.Store(e, self.z(x, t.k), z3.BoolVal(True))
                return e
            if isinstance(t, TMap) and isinstance(h, HDict):
                if h.fixed:
                    raise JoinError('a dictionary of different things')
                if freeze == 'deep':
                    self.freeze(v)
                if h.m is not None:
                    return self.z(h.m, t)
                has = z3.K(t.k.sort(), z3.BoolVal(False))
                val = z3.K(t.k.sort(), self.default_of(t.v))
                for kk, vv in h.d.items():
                    ke = self.z(kk, t.k)
                    has = z3.Store(has, ke, z3.BoolVal(True))
                    val = z3.Store(val, ke, self.z(
                        vv, t.v, freeze and 'deep'))
                return t.mk(has, val)
        raise JoinError('%r as %s' % (v, t))

    def strinj(self, t):
        if not hasattr(t, '_strinj'):
            t._strinj = z3.Function('str2' + t.name, TStr.sort(), t.sort())
        return t._strinj

    def proj(self, v, i):
        return self.val(v.t.els[i], v.t.get(v.e, i))

    def val(self, t, e):
        """engine value of a z3 term of type t"""
        if isinstance(t, TTup):
            return tuple(self.val(x, t.get(e, i))
                         for i, x in enumerate(t.els))
        if t is TNone:
            return None
        if t is TBool:
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        if t is TInt and z3.is_int_value(e):
            return e.as_long()
        if t is TStr and z3.is_string_value(e):
            return e.as_string()
        if isinstance(t, TOpt):
            e = z3.simplify(e)
            if z3.is_app(e) and e.decl().eq(t.sort().none.decl()):
                return None
            if z3.is_app(e) and e.decl().eq(t.sort().some):
                return self.val(t.el, e.arg(0))
        self.reg(t, e)
        return Sym(t, e)

    # ------------------------------------------------------------ the heap
    def alloc(self, h):
        oid = self.fresh_id()
        self.st.heap[oid] = h
        return Ref(oid)

    def h(self, ref):
        return self.st.heap[ref.oid]

    def freeze(self, ref):
        """the value of the object is kept in a container: later changes
        through the object are not supported"""
        h = self.st.heap[ref.oid]
        h.frozen = True
        if isinstance(h, HView):
            self.st.heap[h.owner.oid].leaked = True

    def hmut(self, ref):
        h = self.st.heap[ref.oid]
        if h.frozen:
            raise Unsupported('mutation of an object after its value was '
                              'stored in a container')
        return h

    def new_list(self, items=()):
        return self.alloc(HList(items if isinstance(items, Sym)
                                else list(items)))

    def content(self, v):
        """Content of an iterable: python list of values, or Sym TSeq."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Sym):
            if isinstance(v.t, TSeq):
                return v
            if isinstance(v.t, TTup):
                return [self.proj(v, i) for i in range(len(v.t.els))]
            if isinstance(v.t, TOpt):
                return self.content(self.unopt(v))
            if isinstance(v.t, TObj) and 'iter' in v.t.hooks:
                return self.content(v.t.hooks['iter'](self, v))
            if isinstance(v.t, TStruct) and v.t.cls is not None:
                return self.content(self.thaw(v))
            raise Unsupported('iteration over %r' % v)
        if isinstance(v, Ref):
            h = self.h(v)
            if isinstance(h, HList):
                return h.content
            if isinstance(h, HGen):
                if h.content is None:
                    h.content = []
                    return h.thunk(None)
                c = h.content
                h.content = []
                return c
            if isinstance(h, HZip):
                acc = self.new_list()
                self.loop_over({'_': 'For', 'lineno': self.line[1]},
                               self.cur_frame(), v,
                               lambda x: self.list_append(acc, x),
                               lambda: None)
                return self.h(acc).content
            if isinstance(h, HSet):
                if isinstance(h.items, list):
                    return list(h.items)
                return self.set_elems(h.items)
            if isinstance(h, HDict):
                return self.dict_keys(v)
            if isinstance(h, HInst):
                nt = self.ntfields(h)
                if nt is not None:
                    return [h.attrs[n] for n in nt]
                m, mc = h.cls.lookup('__iter__')
                if mc is not None and mc.name == 'Sequence' and \
                        mc.module is not None and \
                        mc.module.name == '_abcoll':
                    return self.seq_protocol(v)
                if m is not None:
                    r = self.call(self.getattr(v, '__iter__'), [], {})
                    if r == v:
                        raise Unsupported('iterator object')
                    return self.content(r)
                m, _ = h.cls.lookup('__getitem__')
                if m is not None:
                    return self.seq_protocol(v)
        if isinstance(v, TermV) or isinstance(v, ExtV):
            hook = self.externals.get('iter')
            if hook:
                r = hook(self, v)
                if r is not None:
                    return self.content(r)
        if isinstance(v, ClassV) and v.meta is not None:
            pass
        if isinstance(v, (int, bool)) or v is None:
            self.raise_('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def set_elems(self, v):
        """the elements of a symbolic set in some order: a sequence with
        exactly the members of the set (instances of this by set_hooks)"""
        t = TSeq(v.t.k)
        s = self.fresh('elements', t)
        self.note_seq(t, s.e)
        mem = self.memfold(t)
        self.st.ghost[('uncons', 'elems', s.e.sexpr())] = v.e
        for hk in self.set_hooks:
            hk(self, v, s, lambda x: self.assume(
                mem(s.e, x) == z3.Select(v.e, x)))
        return s

    def set_split(self, E, seq, p, x, rest):
        v = self.st.ghost.get(('uncons', 'elems', seq.e.sexpr()))
        if v is not None:
            m = self.memfold(seq.t)
            self.assume(m(seq.e, x) == z3.Select(v, x))
            self.assume(z3.Select(v, x))
            self.assume(z3.Not(m(p, x)))
            self.assume(z3.Not(m(rest, x)))

    def seq_protocol(self, v):
        """Iterate an instance through __len__ / __getitem__.  (Python stops
        at IndexError; here the sequence wraps one underlying list.)"""
        self.assumptions.add(
            'iterating an object through the sequence protocol yields '
            'x[0], x[1], ... up to the first IndexError (the loop of '
            '_abcoll.Sequence.__iter__)')
        get = self.getattr(v, '__getitem__')
        c = self.content(self.call(get, [slice(None, None, None)], {}))
        if isinstance(c, Sym) and self.record:
            k = self.fresh('k', TInt)
            self.solver.push()
            n = len(self.pc)
            self.assume(z3.And(k.e >= 0, k.e < self.len(c.t, c.e)))
            x = self.call(get, [k], {})
            self.prove('sequence protocol: x[k] is the k-th item of x[:]',
                       self.eq(x, self.nth(c, k.e)))
            self.solver.pop()
            del self.pc[n:]
        return c

    def unmixed(self, h):
        if h.fixed:
            raise Unsupported('a dictionary of different things')

    def fixed_key(self, h, k):
        """the fixed key equal to k on this path, if any"""
        if self.hashable(k) and k in h.fixed:
            return k
        for y in list(h.fixed):
            e = self.eq(k, y)
            if e is not False and self.branch(e):
                return y

    def dict_keys(self, v):
        h = self.h(v)
        if h.d is not None:
            return list(h.d.keys())
        self.unmixed(h)
        if h.ordered:
            if h.keys is not None:
                return h.keys
            raise Unsupported('iteration over a symbolic dictionary')
        return self.set_elems(Sym(TSet(h.m.t.k), h.m.t.has(h.m.e)))

    # --------------------------------------------------------- exceptions
    def mkexc(self, cls, args=()):
        if isinstance(cls, str):
            cls = EXC[cls]
        return self.alloc(HInst(cls, {'args': tuple(args)}))

    def raise_(self, cls, *args):
        raise PyExc(self.mkexc(cls, args))

    # -------------------------------------------------------- truth, unopt
    def unopt(self, v):
        """strip TOpt by branching on None"""
        while isinstance(v, Sym) and isinstance(v.t, TOpt):
            if self.branch(v.t.is_none(v.e)):
                return None
            v = self.val(v.t.el, v.t.val(v.e))
        return v

    def truth_e(self, v):
        """truth as a Python bool or a z3 Bool, or None if it needs a call"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple, Fraction)):
            return bool(v)
        if isinstance(v, Sym):
            t = v.t
            if t is TBool:
                return v.e
            if t in (TInt, TReal):
                return v.e != 0
            if t is TFP:
                return z3.Not(z3.fpIsZero(v.e))
            if t is TStr:
                return v.e != z3.StringVal('')
            if isinstance(t, TSeq):
                if self.origin(v) is not None:
                    return self.first(v) is not None
                return z3.Not(v.e == t.nil)
            if isinstance(t, TOpt):
                inner = self.truth_e(self.val(t.el, t.val(v.e)))
                if inner is None:
                    return None
                return z3.And(z3.Not(t.is_none(v.e)), inner)
            if isinstance(t, TObj):
                if 'truth' in t.hooks:
                    return t.hooks['truth'](self, v)
                if t.hooks.get('len'):
                    return self.z(t.hooks['len'](self, v), TInt) != 0
                if t.hooks.get('notnone') or 'call' in t.hooks:
                    return True
                # any value of the user: maybe None, 0, an empty list
                return z3.And(v.e != t.const('None'), z3.Function(
                    'is true: ' + t.name, t.sort(), z3.BoolSort())(v.e))
            if isinstance(t, TTup):
                return len(t.els) > 0
            if isinstance(t, TSet):
                return v.e != z3.K(t.k.sort(), z3.BoolVal(False))
            if isinstance(t, TStruct):
                return None
        if isinstance(v, (FuncV, BoundV, ClassV, Builtin, UFun, ModuleV)):
            return True
        if isinstance(v, Ref):
            h = self.h(v)
            if isinstance(h, HList):
                if isinstance(h.content, list):
                    return bool(h.content)
                return self.truth_e(h.content)
            if isinstance(h, HDict):
                if h.d is not None:
                    return bool(h.d)
                if h.fixed:
                    return True
                return h.m.t.has(h.m.e) != z3.K(h.m.t.k.sort(),
                                                z3.BoolVal(False))
            if isinstance(h, HSet):
                if isinstance(h.items, list):
                    return bool(h.items)
                return self.truth_e(h.items)
            if isinstance(h, (HGen, HZip)):
                return True
            if isinstance(h, HInst):
                if self.ntfields(h) is not None:
                    return len(self.ntfields(h)) > 0
                if h.cls.lookup('__nonzero__')[0] is None and \
                        h.cls.lookup('__len__')[0] is None:
                    return True
                return None
        if isinstance(v, TermV):
            hook = self.externals.get('truth')
            if hook:
                r = hook(self, v)
                if r is not None:
                    return r
            return True
        if isinstance(v, ExtV):
            return True
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        if isinstance(v, Sym) and isinstance(v.t, TOpt):
            v = self.unopt(v)
        e = self.truth_e(v)
        if e is None:
            if isinstance(v, Sym):
                v = self.thaw(v)
            h = self.h(v)
            m, _ = h.cls.lookup('__nonzero__')
            if m is None:
                m = '__len__'
            else:
                m = '__nonzero__'
            return self.truth(self.call(self.getattr(v, m), [], {}))
        return self.branch(e)

    def thaw(self, v):
        """a frozen instance as a heap object (not mutable)"""
        t = v.t
        attrs = {}
        for n, ft in t.fields:
            x = self.val(ft, t.get(v.e, n))
            if isinstance(ft, TSeq):
                r = self.alloc(HList(x))
                self.h(r).frozen = True
                x = r
            attrs[n] = x
        r = self.alloc(HInst(t.cls, attrs))
        self.h(r).frozen = True
        return r

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python ==: a bool or a z3 Bool"""
        if a is b:
            if not (isinstance(a, Sym) and a.t is TFP):
                return True
        if isinstance(a, Sym) and isinstance(a.t, TOpt) or \
                isinstance(b, Sym) and isinstance(b.t, TOpt):
            if a is None:
                return b.t.is_none(b.e)
            if b is None:
                return a.t.is_none(a.e)
            try:
                t = join(self.typ(a), self.typ(b))
                return self.z(a, t) == self.z(b, t)
            except JoinError:
                a, b = self.unopt(a), self.unopt(b)
                return self.eq(a, b)
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Sym) and isinstance(o.t, TObj):
                if o.t.hooks.get('notnone'):
                    return False
                return o.e == o.t.const('None')
            return False
        ca = isinstance(a, (bool, int, float, str, Fraction))
        cb = isinstance(b, (bool, int, float, str, Fraction))
        if ca and cb:
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(x.t, TObj) and \
                    'eq' in x.t.hooks:
                r = x.t.hooks['eq'](self, x, y)
                if r is not None:
                    return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = self.kind(a), self.kind(b)
            if (ta, tb) in (('inst', 'struct'), ('struct', 'inst'),
                            ('struct', 'struct')):
                cls = a.t.cls if ta == 'struct' else self.h(a).cls
                if cls is not None and cls.lookup('__eq__')[0]:
                    x = self.thaw(a) if ta == 'struct' else a
                    y = self.thaw(b) if tb == 'struct' else b
                    return self.eq(x, y)
            if ta != tb and not (ta == 'num' and tb == 'num') and \
                    'obj' not in (ta, tb):
                return False
            try:
                t = join(self.typ(a), self.typ(b))
            except JoinError:
                raise Unsupported('== of %r and %r' % (a, b))
            if t is TFP:
                return z3.fpEQ(self.z(a, t), self.z(b, t))
            return self.z(a, t) == self.z(b, t)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ha, hb = self.h(a), self.h(b)
            if isinstance(ha, HInst) and isinstance(hb, HInst) and \
                    self.ntfields(ha) and self.ntfields(hb) and \
                    not ha.cls.lookup('__eq__')[0]:
                return self.eq(tuple(self.content(a)), tuple(self.content(b)))
            if isinstance(ha, HInst) or isinstance(hb, HInst):
                x, y = (a, b) if isinstance(ha, HInst) and \
                    ha.cls.lookup('__eq__')[0] else (b, a)
                hx = self.h(x)
                if isinstance(hx, HInst) and hx.cls.lookup('__eq__')[0]:
                    r = self.call(self.getattr(x, '__eq__'), [y], {})
                    return self.truth_e(r)
                return False
            if isinstance(ha, HList) and isinstance(hb, HList):
                ca, cb = ha.content, hb.content
                if isinstance(ca, list) and isinstance(cb, list):
                    if len(ca) != len(cb):
                        return False
                    return self.and_([self.eq(x, y)
                                      for x, y in zip(ca, cb)])
                t = join(self.typ(a), self.typ(b))
                return self.z(a, t) == self.z(b, t)
            if isinstance(ha, HDict) and isinstance(hb, HDict) and \
                    ha.d is not None and hb.d is not None:
                if set(ha.d) != set(hb.d):
                    return False
                return self.and_([self.eq(ha.d[k], hb.d[k]) for k in ha.d])
            if type(ha) is not type(hb):
                return False
            try:
                t = join(self.typ(a), self.typ(b))
                return self.z(a, t) == self.z(b, t)
            except JoinError:
                raise Unsupported('== of %r and %r' % (ha, hb))
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            hr = self.h(r)
            if isinstance(hr, HInst) and self.ntfields(hr) and \
                    isinstance(o, tuple):
                return self.eq(tuple(self.content(r)), o)
            if isinstance(hr, HInst) and hr.cls.lookup('__eq__')[0]:
                return self.truth_e(
                    self.call(self.getattr(r, '__eq__'), [o], {}))
            return False
        if isinstance(a, TermV) and isinstance(b, TermV):
            if a.fn != b.fn or len(a.args) != len(b.args) or \
                    set(a.kwargs) != set(b.kwargs):
                return False
            return self.and_([self.eq(x, y) for x, y in
                              zip(a.args, b.args)] +
                             [self.eq(a.kwargs[k], b.kwargs[k])
                              for k in a.kwargs])
        if isinstance(a, (ExtV,)) and isinstance(b, (ExtV,)):
            return a == b
        return a is b

    def kind(self, v):
        if isinstance(v, Sym):
            t = v.t
            if t in (TInt, TReal, TBool, TFP):
                return 'num'
            if t is TStr:
                return 'str'
            if isinstance(t, TObj):
                return 'obj'
            if isinstance(t, TSeq):
                return 'seq'
            if isinstance(t, TTup):
                return 'tup'
            if isinstance(t, TStruct):
                return 'struct'
            return t.name
        if isinstance(v, (bool, int, float, Fraction)):
            return 'num'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, tuple):
            return 'tup'
        if isinstance(v, Ref):
            h = self.h(v)
            return {HList: 'seq', HInst: 'inst', HDict: 'map', HSet: 'set',
                    HGen: 'gen', HZip: 'gen'}[type(h)]
        return 'other'

    def and_(self, es):
        out = []
        for e in es:
            if e is True or (not isinstance(e, bool) and z3.is_true(e)):
                continue
            if e is False:
                return False
            out.append(e)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def boolv(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym(TBool, e)

    def not_(self, e):
        return (not e) if isinstance(e, bool) else z3.Not(e)

    def lt(self, a, b):
        """a < b as bool or z3 Bool"""
        if isinstance(a, Sym) and isinstance(a.t, TOpt):
            a = self.unopt(a)
        if isinstance(b, Sym) and isinstance(b.t, TOpt):
            b = self.unopt(b)
        num = (bool, int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num) or \
                isinstance(a, str) and isinstance(b, str):
            return a < b
        if a is None and isinstance(b, num + (str, tuple)) or \
                a is None and self.kind(b) in ('num', 'str'):
            return True         # Python 2: None sorts before everything
        if b is None:
            return False
        ka, kb = self.kind(a), self.kind(b)
        if ka == 'num' and kb == 'num':
            t = join(self.typ(a), self.typ(b))
            if t is TFP:
                return z3.fpLT(self.z(a, t), self.z(b, t))
            if t is TBool:
                t = TInt
            return self.z(a, t) < self.z(b, t)
        if ka == 'str' and kb == 'str':
            return self.z(a, TStr) < self.z(b, TStr)
        if ka == 'tup' and kb == 'tup':
            la, lb = self.content(a), self.content(b)
            e = len(la) < len(lb)
            for x, y in reversed(list(zip(la, lb))):
                e = self.or_([self.lt(x, y),
                              self.and_([self.eq(x, y), e])])
            return e
        for x in (a, b):
            if isinstance(x, Sym) and isinstance(x.t, TObj) and \
                    'lt' in x.t.hooks:
                return x.t.hooks['lt'](self, a, b)
        if ka in ('inst', 'struct'):
            x = self.thaw(a) if ka == 'struct' else a
            y = self.thaw(b) if kb == 'struct' else b
            if self.h(x).cls.lookup('__lt__')[0]:
                return self.truth_e(
                    self.call(self.getattr(x, '__lt__'), [y], {}))
            if self.ntfields(self.h(x)):
                return self.lt(tuple(self.content(x)),
                               tuple(self.content(y)))
        raise Unsupported('< of %r and %r' % (a, b))

    def or_(self, es):
        out = []
        for e in es:
            if e is False or (not isinstance(e, bool) and z3.is_false(e)):
                continue
            if e is True:
                return True
            out.append(e)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def contains(self, x, c):
        """x in c"""
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Sym) and c.t is TStr or (
                isinstance(c, str) and isinstance(x, Sym)):
            return z3.Contains(self.z(c, TStr), self.z(x, TStr))
        if isinstance(c, Sym) and isinstance(c.t, TObj) and \
                'contains' in c.t.hooks:
            r = c.t.hooks['contains'](self, c, x)
            return r.e if isinstance(r, Sym) else r
        if isinstance(c, Sym) and isinstance(c.t, TSet):
            return z3.Select(c.e, self.z(x, c.t.k))
        if isinstance(c, Sym) and isinstance(c.t, TMap):
            return z3.Select(c.t.has(c.e), self.z(x, c.t.k))
        if isinstance(c, Ref):
            h = self.h(c)
            if isinstance(h, HSet) and isinstance(h.items, Sym):
                t = h.items.t
                try:
                    return z3.Select(h.items.e, self.z(x, t.k))
                except JoinError:
                    return False
            if isinstance(h, HSet):
                return self.or_([self.eq(x, y) for y in h.items])
            if isinstance(h, HDict):
                if h.d is not None:
                    if self.hashable(x):
                        return x in h.d
                    return self.or_([self.eq(x, y) for y in h.d])
                try:
                    return self.or_(
                        [self.eq(x, y) for y in h.fixed] + [z3.Select(
                            h.m.t.has(h.m.e), self.z(x, h.m.t.k))])
                except JoinError:
                    return False
            if isinstance(h, HInst):
                m, _ = h.cls.lookup('__contains__')
                if m is not None:
                    return self.truth_e(self.call(
                        self.getattr(c, '__contains__'), [x], {}))
        if isinstance(c, TermV):
            hook = self.externals.get('contains')
            if hook:
                r = hook(self, x, c)
                if r is not None:
                    return r
        items = self.content(c)
        if isinstance(items, Sym):
            if self.origin(items) is not None:
                return self.first(items, lambda y: self.eq(x, y)) is not None
            return self.member(items, x)
        return self.or_([self.eq(x, y) for y in items])

    def hashable(self, x):
        if isinstance(x, (str, int, float, bool, Fraction, ClassV, ExtV,
                          FuncV)) or x is None:
            return True
        if isinstance(x, tuple):
            return all(self.hashable(y) for y in x)
        if isinstance(x, Ref):
            h = self.h(x)
            return isinstance(h, HInst)
        return False


from .interp import Interp      # noqa
from .loops import Loops        # noqa


class Engine(Interp, Loops, EngineCore):
    pass
