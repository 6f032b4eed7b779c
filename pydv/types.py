"""Types of symbolic values and their z3 sorts."""
import z3

_CACHE = {}


def push_ite(acc, e):
    """accessor(e), pushed through if-then-else"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), push_ite(acc, e.arg(1)),
                     push_ite(acc, e.arg(2)))
    return z3.simplify(acc(e))


class T(object):
    name = '?'
    _sort = None

    def sort(self):
        raise NotImplementedError

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


class _Prim(T):
    def __init__(self, name, mk):
        self.name, self._mk = name, mk

    def sort(self):
        if self._sort is None:
            self._sort = self._mk()
        return self._sort


TInt = _Prim('Int', z3.IntSort)
TReal = _Prim('Real', z3.RealSort)
TBool = _Prim('Bool', z3.BoolSort)
TStr = _Prim('Str', z3.StringSort)
TFP = _Prim('FP', lambda: z3.FPSort(11, 53))
TBot = _Prim('Bot', lambda: z3.DeclareSort('BotSort'))
TNone = _Prim('None', lambda: z3.DeclareSort('NoneSort'))


def clean(name):
    return ''.join(c if c.isalnum() else '_' for c in name)


class TObj(T):
    """An opaque sort of Python objects.

    attrs: name -> T (immutable attribute, an uninterpreted function) or a
           callable (E, value) -> value
    mut:   name -> T, attribute kept in a state array
    meths: name -> callable(E, value, args, kwargs)
    hooks: 'getitem','len','iter','call','contains','truth','eq','lt','isinstance','setattr'
    """
    def __init__(self, name, attrs=None, mut=None, meths=None, hooks=None,
                 pyclass=None):
        self.name = name
        self.attrs = attrs or {}
        self.mut = mut or {}
        self.meths = meths or {}
        self.hooks = hooks or {}
        self.pyclass = pyclass
        self._fn = {}

    def sort(self):
        if self._sort is None:
            self._sort = z3.DeclareSort('O_' + clean(self.name))
        return self._sort

    def attrfn(self, a):
        if a not in self._fn:
            self._fn[a] = z3.Function('%s.%s' % (self.name, a), self.sort(),
                                      self.attrs[a].sort())
        return self._fn[a]

    def const(self, text):
        """injection of a Python constant in the sort"""
        return z3.Const('%s!const!%s' % (self.name, text), self.sort())


def _dt(key, build):
    if key not in _CACHE:
        _CACHE[key] = build()
    return _CACHE[key]


class TSeq(T):
    def __init__(self, el):
        self.el = el
        self.name = 'Seq[%s]' % el.name

    def sort(self):
        def build():
            d = z3.Datatype('Seq_' + clean(self.el.name))
            d.declare('nil')
            d.declare('snoc', ('init', d), ('last', self.el.sort()))
            return d.create()
        return _dt(self.name, build)

    @property
    def nil(self):
        return self.sort().nil

    def rawsnoc(self, a, x):
        return self.sort().snoc(a, x)

    def is_nil(self, e):
        return self.sort().is_nil(e)

    def last(self, e):
        return self.sort().last(e)

    def init(self, e):
        return self.sort().init(e)

    def catfn(self):
        return _dt(self.name + '#cat', lambda: z3.Function(
            'cat_' + clean(self.el.name), self.sort(), self.sort(), self.sort()))

    def lenfn(self):
        return _dt(self.name + '#len', lambda: z3.Function(
            'len_' + clean(self.el.name), self.sort(), z3.IntSort()))


class TTup(T):
    def __init__(self, *els):
        self.els = els
        self.name = 'Tup[%s]' % ','.join(e.name for e in els)

    def sort(self):
        def build():
            d = z3.Datatype('Tup_' + clean(self.name))
            d.declare('mk', *[('f%d' % i, e.sort())
                              for i, e in enumerate(self.els)])
            return d.create()
        return _dt(self.name, build)

    def mk(self, *es):
        if not self.els:
            return self.sort().mk
        return self.sort().mk(*es)

    def get(self, e, i):
        return push_ite(getattr(self.sort(), 'f%d' % i), e)


class TStruct(T):
    """Frozen value of an instance of a class (or of a made-up record)."""
    def __init__(self, cname, fields, cls=None):
        self.cname = cname
        self.fields = list(fields)      # [(name, T)]
        self.cls = cls
        self.name = '%s{%s}' % (cname, ','.join(
            '%s:%s' % (n, t.name) for n, t in self.fields))
        self.ftypes = dict(self.fields)

    def sort(self):
        def build():
            d = z3.Datatype('St_' + clean(self.name))
            d.declare('mk', *[('g_' + n, t.sort()) for n, t in self.fields])
            return d.create()
        return _dt(self.name, build)

    def mk(self, **kw):
        if not self.fields:
            return self.sort().mk
        return self.sort().mk(*[kw[n] for n, _ in self.fields])

    def get(self, e, n):
        return push_ite(getattr(self.sort(), 'g_' + n), e)


class TOpt(T):
    def __init__(self, el):
        self.el = el
        self.name = 'Opt[%s]' % el.name

    def sort(self):
        def build():
            d = z3.Datatype('Opt_' + clean(self.el.name))
            d.declare('none')
            d.declare('some', ('val', self.el.sort()))
            return d.create()
        return _dt(self.name, build)

    @property
    def none(self):
        return self.sort().none

    def some(self, e):
        return self.sort().some(e)

    def is_none(self, e):
        return self.sort().is_none(e)

    def val(self, e):
        return z3.simplify(self.sort().val(e))


class TMap(T):
    """finite map: (has: Array K Bool, val: Array K V)"""
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = 'Map[%s,%s]' % (k.name, v.name)

    def sort(self):
        def build():
            d = z3.Datatype('Map_' + clean(self.name))
            d.declare('mk',
                      ('has', z3.ArraySort(self.k.sort(), z3.BoolSort())),
                      ('val', z3.ArraySort(self.k.sort(), self.v.sort())))
            return d.create()
        return _dt(self.name, build)

    def mk(self, has, val):
        return self.sort().mk(has, val)

    def has(self, e):
        return z3.simplify(self.sort().has(e))

    def val(self, e):
        return z3.simplify(self.sort().val(e))


class TSet(T):
    def __init__(self, k):
        self.k = k
        self.name = 'Set[%s]' % k.name

    def sort(self):
        return z3.ArraySort(self.k.sort(), z3.BoolSort())


class JoinError(Exception):
    pass


def join(a, b):
    if a == b:
        return a
    if a is None or a is TBot:
        return b
    if b is None or b is TBot:
        return a
    nums = {TInt.name: 0, TReal.name: 1}
    if a.name in nums and b.name in nums:
        return TReal
    if a is TBool and b.name in nums or b is TBool and a.name in nums:
        return b if a is TBool else a
    if a is TFP and b.name in nums or b is TFP and a.name in nums:
        return TFP
    if a is TNone:
        return b if isinstance(b, TOpt) else TOpt(b)
    if b is TNone:
        return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt):
        return TOpt(join(a.el, b.el if isinstance(b, TOpt) else b))
    if isinstance(b, TOpt):
        return TOpt(join(a, b.el))
    if isinstance(a, TObj) and b in (TStr, TInt, TBool):
        return a
    if isinstance(b, TObj) and a in (TStr, TInt, TBool):
        return b
    if isinstance(a, TSeq) and isinstance(b, TSeq):
        return TSeq(join(a.el, b.el))
    if isinstance(a, TTup) and isinstance(b, TTup) and \
            len(a.els) == len(b.els):
        return TTup(*[join(x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, TStruct) and isinstance(b, TStruct) and \
            a.cname == b.cname and [n for n, _ in a.fields] == \
            [n for n, _ in b.fields]:
        return TStruct(a.cname, [(n, join(t, b.ftypes[n]))
                                 for n, t in a.fields], a.cls)
    if isinstance(a, TMap) and isinstance(b, TMap):
        return TMap(join(a.k, b.k), join(a.v, b.v))
    if isinstance(a, TSet) and isinstance(b, TSet):
        return TSet(join(a.k, b.k))
    raise JoinError('%s / %s' % (a, b))
