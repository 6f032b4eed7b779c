"""general.py: block_splitter, split_in_blocks, WeightedSequence, distinct,
deep_eq."""
from .base import *     # noqa

Item, Kind = TObj('Item'), TObj('Kind')
Items = TSeq(Item)
WS = TStruct('WeightedSequence', [('_seq', Items), ('weight', TReal)])
Blocks = TSeq(WS)
wfn = z3.Function('w', Item.sort(), z3.RealSort())
kfn = z3.Function('kd', Item.sort(), Kind.sort())


class Splitting(object):
    """The reference splitting of a sequence of items, as a fold."""

    def __init__(self, E, M, w, kd, wt=TReal):
        """kd None: items of one kind only"""
        self.E, self.w, self.kd, self.M = E, w, kd, M
        WS = self.WS = TStruct('WeightedSequence', [('_seq', Items),
                                                    ('weight', wt)])
        Blocks = self.Blocks = TSeq(WS)
        ST = self.ST = TStruct('split', [('out', Blocks), ('cur', WS),
                                         ('prev', Kind)])
        unsp = E.z('Unspecified', Kind)

        def step(a, x, p):
            out, cur, prev = [ST.get(a, n) for n in ('out', 'cur', 'prev')]
            cs, cw = WS.get(cur, '_seq'), WS.get(cur, 'weight')
            one = WS.mk(_seq=Items.rawsnoc(Items.nil, x), weight=w(x))
            new = z3.Or(cw + w(x) > M, kd(x) != prev) if kd is not None else \
                cw + w(x) > M
            return z3.If(w(x) == 0, a, z3.If(
                new, ST.mk(out=z3.If(cs == Items.nil, out,
                                     Blocks.rawsnoc(out, cur)),
                           cur=one, prev=kd(x) if kd is not None else unsp),
                ST.mk(out=out, prev=kd(x) if kd is not None else unsp,
                      cur=WS.mk(_seq=Items.rawsnoc(cs, x),
                                weight=cw + w(x)))))
        self.split = E.add_fold(Fold(
            'split', Item, ST, ST.mk(
                out=Blocks.nil, prev=unsp,
                cur=WS.mk(_seq=Items.nil, weight=wt.sort().cast(0))), step))
        self.started = E.add_fold(Fold(
            'started', Item, TBool, F, lambda a, x, p: z3.Or(a, w(x) != 0)))
        self.nonneg = E.add_fold(Fold(
            'nonneg', Item, TBool, T, lambda a, x, p: z3.And(a, w(x) >= 0),
            hom=z3.And))

    def blocks(self, s):
        """the blocks of the items s"""
        fin = self.split(s)
        out, cur = self.ST.get(fin, 'out'), self.ST.get(fin, 'cur')
        return z3.If(self.WS.get(cur, '_seq') == Items.nil, out,
                     self.Blocks.rawsnoc(out, cur))


def params(E):
    W = UFun('weight', lambda E, a, k: Sym(TReal, wfn(E.z(a[0], Item))))
    K = UFun('kind', lambda E, a, k: Sym(Kind, kfn(E.z(a[0], Item))))
    return W, K


def splitter(E, args, kw=None, w=wfn, kd=kfn, wt=TReal):
    """block_splitter(items, max_weight, ...) == the reference"""
    M = z3.Const('M', z3.RealSort())
    S = E.const('S', Items)
    sp = Splitting(E, M, w, kd, wt)
    f = E.lookup_path('general.block_splitter')

    def run():
        try:
            c = E.content(E.call(f, [S, Sym(TReal, M)] + args, kw or {}))
        except PyExc as e:
            E.prove('a refusal is a ValueError', is_exc(E, e, 'ValueError'))
            E.prove('refused only for a limit <= 0 or a negative weight',
                    z3.Or(M <= 0, z3.Not(sp.nonneg(S.e))))
            reach(E, 'refused')
            return
        E.prove('the blocks are the blocks of the specification',
                E.z(E.new_list(c), sp.Blocks) == sp.blocks(S.e))
        E.prove('accepted only for a positive limit and weights >= 0',
                z3.And(M > 0, sp.nonneg(S.e)))
        reach(E, 'accepted')
    return run


def t_splitter(E):
    return splitter(E, list(params(E)))


def t_splitter_kw(E):
    W, K = params(E)
    return splitter(E, [], {'kind': K, 'weight': W})


def t_splitter_default(E):
    return splitter(E, [], w=lambda x: z3.IntVal(1), kd=None, wt=TInt)


def t_splitter_weights(E):
    return splitter(E, [params(E)[0]], kd=None)


# ---------------------------------------------------- lemmas over the spec
def t_lossless(E):
    """C01: concatenating the blocks gives the items of non-zero weight"""
    sp = Splitting(E, z3.Const('M', z3.RealSort()), wfn, kfn)
    flat = E.add_fold(Fold('flat', WS, Items, Items.nil,
                           lambda a, b, p: E.cat(Items, a,
                                                 WS.get(b, '_seq'))))
    nonempty = E.add_fold(Fold('nonempty', WS, TBool, T, lambda a, b, p:
                               z3.And(a, WS.get(b, '_seq') != Items.nil)))
    keep = E.add_fold(Fold('nonzero', Item, Items, Items.nil,
                           lambda a, x, p: z3.If(wfn(x) == 0, a,
                                                 Items.rawsnoc(a, x))))

    def claim(s):
        fin = sp.split(s)
        out, cur = sp.ST.get(fin, 'out'), sp.ST.get(fin, 'cur')
        return z3.And(E.cat(Items, flat(out), WS.get(cur, '_seq')) == keep(s),
                      nonempty(out))
    lem = E.induct('concat(out) ++ current = items of non-zero weight',
                   Items, claim)

    def run():
        S = E.const('S', Items)
        E.assume(lem(S.e))
        b = sp.blocks(S.e)
        E.prove('concat(blocks) = items of non-zero weight',
                flat(b) == keep(S.e))
        E.prove('blocks are not empty', nonempty(b))
        reach(E, 'end')
    return run


def t_bounded(E):
    """C02: kinds, weights and the limit"""
    M = z3.Const('M', z3.RealSort())
    sp = Splitting(E, M, wfn, kfn)
    wsum = E.add_fold(Fold('wsum', Item, TReal, z3.RealVal(0),
                           lambda a, x, p: a + wfn(x)))
    homog = E.add_fold(Fold(
        'homog', Item, TBool, T, lambda a, x, p: z3.And(a, z3.Or(
            p == Items.nil, kfn(x) == kfn(Items.last(p))))))

    def good(b):
        s, w = WS.get(b, '_seq'), WS.get(b, 'weight')
        return z3.And(s != Items.nil, w == wsum(s), homog(s),
                      z3.Or(w <= M, Items.init(s) == Items.nil))
    allgood = E.add_fold(Fold('allgood', WS, TBool, T,
                              lambda a, b, p: z3.And(a, good(b))))

    def claim(s):
        fin = sp.split(s)
        out, cur, prev = [sp.ST.get(fin, n) for n in ('out', 'cur', 'prev')]
        cs, cw = WS.get(cur, '_seq'), WS.get(cur, 'weight')
        if z3.is_app(cs) and cs.num_args() == 1:
            E.reg(Items, cs)
        return z3.And(
            allgood(out),
            z3.Implies(cs == Items.nil, cw == 0),
            z3.Implies(cs != Items.nil, z3.And(
                good(cur), kfn(Items.last(cs)) == prev)))
    lem = E.induct('blocks are homogeneous, weighed and within the limit',
                   Items, claim)

    def run():
        S = E.const('S', Items)
        E.assume(M > 0)
        E.assume(lem(S.e))
        E.prove('blocks are homogeneous, weighed and within the limit',
                allgood(sp.blocks(S.e)))
        reach(E, 'end')
    return run


# ------------------------------------------------------------- by a hint
def by_hint(E, args, w, kd, wt=TReal):
    S = E.const('S', Items)
    n = z3.Const('n', z3.IntSort())
    wsum = E.add_fold(Fold('wsum', Item, wt, wt.sort().cast(0),
                           lambda a, x, p: a + w(x)))
    q = (z3.ToReal(wsum(S.e)) if wt is TInt else wsum(S.e)) / z3.ToReal(n)
    M = z3.ToReal(-z3.ToInt(-q))
    sp = Splitting(E, M, w, kd, wt)
    f = E.lookup_path('general.split_in_blocks')

    def run():
        try:
            c = E.content(E.call(f, [S, Sym(TInt, n)] + args))
        except PyExc as e:
            E.prove('refused for n <= 0, or as by the limit',
                    z3.Or(n <= 0, M <= 0, z3.Not(sp.nonneg(S.e))))
            E.prove('a refusal of a positive hint is a ValueError',
                    z3.Or(n <= 0, z3.BoolVal(is_exc(E, e, 'ValueError'))))
            reach(E, 'refused')
            return
        E.prove('the blocks are those of the balanced limit',
                E.z(E.new_list(c), sp.Blocks) == sp.blocks(S.e))
        E.prove('accepted only for n > 0 and a legal limit',
                z3.And(n > 0, M > 0, sp.nonneg(S.e)))
        reach(E, 'accepted')
    return run


def t_hint(E):
    return by_hint(E, list(params(E)), wfn, kfn)


def t_hint_default(E):
    return by_hint(E, [], lambda x: z3.IntVal(1), None, TInt)


def t_hint_count(E):
    """items of weight one and of one kind: at most n blocks"""
    m = z3.Const('m', z3.IntSort())
    sp = Splitting(E, z3.ToReal(m), lambda x: z3.IntVal(1), None, TInt)
    Blocks, WS = sp.Blocks, sp.WS
    total = E.add_fold(Fold('total', WS, TInt, z3.IntVal(0),
                            lambda a, b, p: a + m))

    def claim(s):
        fin = sp.split(s)
        out, cur = sp.ST.get(fin, 'out'), sp.ST.get(fin, 'cur')
        cw = WS.get(cur, 'weight')
        return z3.Implies(m >= 1, z3.And(
            total(out) + cw == E.len(Items, s), cw >= 0, cw <= m,
            (cw == 0) == (WS.get(cur, '_seq') == Items.nil),
            (s == Items.nil) == (cw == 0)))
    lem = E.induct('all blocks but the last have weight m', Items, claim)
    mult = E.induct('total(out) = m * len(out)', Blocks, lambda s:
                    total(s) == m * E.len(Blocks, s))

    def run():
        S = E.const('S', Items)
        n = z3.Const('n', z3.IntSort())
        N = E.len(Items, S.e)
        fin = sp.split(S.e)
        out = sp.ST.get(fin, 'out')
        K = E.len(Blocks, out)
        # m = ceil(N / n)
        E.assume(z3.And(n > 0, m >= 1, N <= m * n))
        E.assume(lem(S.e))
        E.assume(mult(out))
        a = z3.Const('a', z3.IntSort())
        E.have('monotonicity of the product',
               z3.Implies(K >= n, m * (K - n) >= 0))
        E.prove('at most n blocks',
                E.len(Blocks, sp.blocks(S.e)) <= n)
        reach(E, 'end')
    return run


# ------------------------------------------------------ WeightedSequence
Pair = TTup(Item, TReal)
Pairs = TSeq(Pair)


def ws_value(E, S, w):
    """a symbolic WeightedSequence (a heap object) with given parts"""
    cls = E.lookup_path('general.WeightedSequence')
    return E.alloc(HInst(cls, {'_seq': E.new_list(Sym(Items, S)),
                               'weight': Sym(TReal, w)}))


def ws_parts(E, r):
    a = E.h(r).attrs
    return E.z(a['_seq'], Items), E.z(a['weight'], TReal)


def pair_folds(E):
    fst = E.add_fold(Fold('firsts', Pair, Items, Items.nil, lambda a, x, p:
                          Items.rawsnoc(a, Pair.get(x, 0))))
    snd = E.add_fold(Fold('weights', Pair, TReal, z3.RealVal(0),
                          lambda a, x, p: a + Pair.get(x, 1)))
    return fst, snd


def t_ws_ctor(E):
    S = E.const('S', Pairs)
    fst, snd = pair_folds(E)
    cls = E.lookup_path('general.WeightedSequence')

    def run():
        s, w = ws_parts(E, E.call(cls, [S]))
        E.prove('items of the constructor, in order', s == fst(S.e))
        E.prove('weight = sum of the weights', w == snd(S.e))
        s, w = ws_parts(E, E.call(cls, []))
        E.prove('empty by default', z3.And(s == Items.nil, w == 0))
        reach(E, 'end')
    return run


def t_ws_extend(E):
    S = E.const('S', Pairs)
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    fst, snd = pair_folds(E)

    def run():
        for name in ('extend', '__iadd__'):
            o = ws_value(E, A.e, a)
            E.call(E.getattr(o, name), [S])
            s, w = ws_parts(E, o)
            E.prove(name + ' appends the items in order',
                    s == E.cat(Items, A.e, fst(S.e)))
            E.prove(name + ' adds the weights', w == a + snd(S.e))
            reach(E, name)
    return run


def t_ws_append(E):
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    x, b = E.const('x', Item), z3.Const('b', z3.RealSort())

    def run():
        o = ws_value(E, A.e, a)
        E.call(E.getattr(o, 'append'), [(x, Sym(TReal, b))])
        s, w = ws_parts(E, o)
        E.prove('append', z3.And(s == Items.rawsnoc(A.e, x.e), w == a + b))
        n = E.call(E.builtins['len'], [o])
        E.prove('length', E.z(n, TInt) == E.len(Items, A.e) + 1)
        reach(E, 'end')
    return run


def t_ws_insert(E):
    """insert(i, (x, w)) for a symbolic position"""
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    x, b = E.const('x', Item), z3.Const('b', z3.RealSort())
    i = E.const('i', TInt)

    def run():
        o = ws_value(E, A.e, a)
        E.call(E.getattr(o, 'insert'), [i, (x, Sym(TReal, b))])
        s, w = ws_parts(E, o)
        # the insertion function of Python lists at the same position
        l = E.new_list(A)
        E.call(E.getattr(l, 'insert'), [i, x])
        E.prove('insert places the item as a list does',
                s == E.z(l, Items))
        E.prove('insert adds the weight', w == a + b)
        reach(E, 'end')
    return run


def t_ws_add(E):
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    B, b = E.const('B', Items), z3.Const('b', z3.RealSort())

    def run():
        # a sequence added to itself
        o = ws_value(E, A.e, a)
        s, w = ws_parts(E, E.call(E.getattr(o, '__add__'), [o]))
        E.prove('x + x: items twice, in order', s == E.cat(Items, A.e, A.e))
        E.prove('x + x: weight twice', w == a + a)
        s, w = ws_parts(E, o)
        E.prove('x + x: x unchanged', z3.And(s == A.e, w == a))
        o1, o2 = ws_value(E, A.e, a), ws_value(E, B.e, b)
        r = E.call(E.getattr(o1, '__add__'), [o2])
        s, w = ws_parts(E, r)
        E.prove('sum: items of both, in order',
                s == E.cat(Items, A.e, B.e))
        E.prove('sum: weights', w == a + b)
        for o, S, v in ((o1, A, a), (o2, B, b)):
            s, w = ws_parts(E, o)
            E.prove('operands unchanged', z3.And(s == S.e, w == v))
        E.prove('a new sequence is returned', r != o1 and r != o2)
        # changing the result does not change the operands
        x = E.const('x', Item)
        E.call(E.getattr(r, 'append'), [(x, 1)])
        for o, S, v in ((o1, A, a), (o2, B, b)):
            s, w = ws_parts(E, o)
            E.prove('operands not shared', z3.And(s == S.e, w == v))
        reach(E, 'end')
    return run


def t_ws_merge(E):
    """merge over any number of sequences"""
    L = E.const('L', Blocks)
    flat = E.add_fold(Fold('flat', WS, Items, Items.nil,
                           lambda a, b, p: E.cat(Items, a,
                                                 WS.get(b, '_seq'))))
    tot = E.add_fold(Fold('tot', WS, TReal, z3.RealVal(0),
                          lambda a, b, p: a + WS.get(b, 'weight')))
    cls = E.lookup_path('general.WeightedSequence')
    LT = TSeq(TStruct('WeightedSequence', WS.fields, cls))

    def run():
        r = E.call(E.getattr(cls, 'merge'), [Sym(LT, L.e)])
        s, w = ws_parts(E, r)
        E.prove('merge: items of all in order', s == flat(L.e))
        E.prove('merge: sum of the weights', w == tot(L.e))
        reach(E, 'end')
    return run


def t_ws_order(E):
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    B, b = E.const('B', Items), z3.Const('b', z3.RealSort())

    def run():
        o1, o2 = ws_value(E, A.e, a), ws_value(E, B.e, b)
        r = E.call(E.getattr(o1, '__lt__'), [o2])
        E.prove('ordered by weight', E.truth_e(r) == (a < b))
        reach(E, 'end')
    return run


def t_ws_eq(E):
    A, a = E.const('A', Items), z3.Const('a', z3.RealSort())
    B, b = E.const('B', Items), z3.Const('b', z3.RealSort())

    def run():
        o1, o2 = ws_value(E, A.e, a), ws_value(E, B.e, b)
        r = E.truth_e(E.call(E.getattr(o1, '__eq__'), [o2]))
        E.prove('equal items give equality', z3.Implies(A.e == B.e, r))
        E.prove('equality means equal items', z3.Implies(r, A.e == B.e))
        n = E.truth_e(E.call(E.getattr(o1, '__ne__'), [o2]))
        E.prove('!= is the negation', n == z3.Not(r))
        reach(E, 'end')
    return run


# ------------------------------------------------------------- distinct
Key = TObj('Key')
Keys = TSeq(Key)


def t_distinct(E):
    setof = E.add_fold(Fold('setof', Key, TSet(Key),
                            z3.K(Key.sort(), F),
                            lambda a, x, p: z3.Store(a, x, T)))
    dis = E.add_fold(Fold('dis', Key, Keys, Keys.nil, lambda a, x, p:
                          z3.If(z3.Select(setof(p), x), a,
                                Keys.rawsnoc(a, x))))
    # the specification has the stated meaning
    y = z3.Const('y', Key.sort())
    nodup = E.add_fold(Fold('nodup', Key, TBool, T, lambda a, x, p: z3.And(
        a, z3.Not(E.memfold(Keys)(p, x))), auto=False))
    mem = E.memfold(Keys)
    lem = E.induct('distinct(s) has exactly the members of s, once', Keys,
                   lambda s: z3.And(
                       z3.ForAll([y], mem(dis(s), y) == mem(s, y)),
                       z3.ForAll([y], mem(s, y) == z3.Select(setof(s), y)),
                       nodup(dis(s))))
    S = E.const('S', Keys)
    f = E.lookup_path('general.distinct')

    def run():
        r = E.call(f, [S])
        E.prove('distinct(keys) = first occurrences in order',
                E.z(r, Keys) == dis(S.e))
        reach(E, 'end')
    return run


G = ['general']


# ------------------------------------------------------------- deep_eq
Key = TObj('Key')
Keys = TSeq(Key)
Cls = TObj('Cls')
Val = TObj('Val')
Vals = TSeq(Val)
KINDS = ('list tuple dict object slots iterable str unicode int long float '
         'complex other').split()
NUMBERS = ('int', 'long', 'float', 'complex')


def zf(name, *ts):
    return z3.Function(name, *[t.sort() for t in ts])


vcls, kindof = zf('class of', Val, Cls), zf('kind of class', Cls, TInt)
vitems, vkeys = zf('items of', Val, Vals), zf('keys of', Val, Keys)
vget, vslot = zf('item of', Val, Key, Val), zf('slot of', Val, Key, Val)
vdict, slotsof = zf('attributes of', Val, Val), zf('slots of', Cls, Keys)
veq = zf('equal values', Val, Val, TBool)
vnear = zf('almost equal', Val, Val, TInt, TBool)
vstr = zf('text of', Val, TStr)
DEQ = zf('deeply equal', Val, Val, TBool)


def is_(v, *names):
    k = kindof(vcls(v))
    return z3.Or(*[k == KINDS.index(n) for n in names])


def deep_setup(E):
    """the values compared: lists, tuples, dictionaries, objects with
    attributes or slots, other iterables, strings, numbers, other values"""
    SEQ = ('list', 'tuple', 'iterable')
    names = dict((n, (n,)) for n in KINDS[:3] + list(NUMBERS))
    names.update({
        'str': ('str',), 'unicode': ('unicode',),
        'basestring': ('str', 'unicode'), 'float': ('float',),
        'collections.Iterable': SEQ + ('dict', 'str', 'unicode'),
        'collections.Sequence': ('list', 'tuple', 'str', 'unicode'),
        'collections.Mapping': ('dict',),
        'numbers.Number': NUMBERS,
        'numbers.Real': ('int', 'long', 'float')})

    def isinst(E, v, cls):
        if isinstance(cls, Sym) and cls.t == Cls:
            sub = zf('subclass', Cls, Cls, TBool)
            E.assume(sub(cls.e, cls.e))
            return sub(vcls(v.e), cls.e)
        n = cls.dotted if isinstance(cls, ExtV) else cls.name
        if n not in names:
            raise Unsupported('isinstance of a value and %s' % n)
        r = is_(v.e, *names[n])
        if n == 'collections.Iterable':
            # an object with attributes may be iterable as well
            r = z3.Or(r, z3.And(is_(v.e, 'object'),
                                zf('is iterable', Val, TBool)(v.e)))
        return r

    def iter_(E, o):
        if E.branch(is_(o.e, *SEQ)):
            return E.new_list(Sym(Vals, vitems(o.e)))
        if E.branch(is_(o.e, 'dict')):
            return E.new_list(Sym(Keys, vkeys(o.e)))
        if E.branch(is_(o.e, *NUMBERS + ('other', 'slots'))):
            E.raise_('TypeError', 'not iterable')
        raise Unsupported('iteration over a string or an object')

    def len_(E, o):
        if E.branch(is_(o.e, 'list', 'tuple')):
            return Sym(TInt, E.len(Vals, vitems(o.e)))
        if E.branch(is_(o.e, 'dict')):
            return Sym(TInt, E.len(Keys, vkeys(o.e)))
        if E.branch(is_(o.e, *NUMBERS + ('other', 'slots', 'iterable'))):
            E.raise_('TypeError', 'has no len()')
        raise Unsupported('len of a string or an object')

    def has(E, o, k):
        return E.memfold(Keys)(vkeys(o.e), E.z(k, Key))

    def item(E, o, k):
        if isinstance(k, Sym) and k.t == Key:
            if not E.branch(is_(o.e, 'dict')):
                E.raise_('TypeError', 'not a dictionary')
            if not E.branch(has(E, o, k)):
                E.raise_('KeyError', k)
            return Sym(Val, vget(o.e, k.e))
        if not E.branch(is_(o.e, 'list', 'tuple')):
            if E.branch(is_(o.e, 'str', 'unicode', 'object', 'dict')):
                raise Unsupported('item of a string, object or dictionary')
            E.raise_('TypeError', 'not indexable')
        return E.getitem(E.new_list(Sym(Vals, vitems(o.e))), k)

    def contains(E, o, x):
        if isinstance(x, Sym) and x.t == Key and E.branch(is_(o.e, 'dict')):
            return has(E, o, x)
        raise Unsupported('membership')

    def hasattr_(E, o, a):
        if a in ('__dict__', '__slots__', '__class__'):
            return is_(o.e, {'__dict__': 'object', '__slots__': 'slots'}[
                a]) if a != '__class__' else T
        raise Unsupported('hasattr %r' % a)

    def getattr_(E, o, a):
        if a == '__class__':
            return Sym(Cls, vcls(o.e))
        if a in ('__dict__', '__slots__'):
            if not E.branch(hasattr_(E, o, a)):
                E.raise_('AttributeError', a)
            if a == '__dict__':
                E.assume(is_(vdict(o.e), 'dict'))
                return Sym(Val, vdict(o.e))
            return E.new_list(Sym(Keys, slotsof(vcls(o.e))))
        if a in ('items', 'iteritems', 'keys', 'iterkeys', 'values'):
            if not E.branch(is_(o.e, 'dict')):
                E.raise_('AttributeError', a)
            raise Unsupported('dict.%s' % a)
        raise Unsupported('attribute %s' % a)

    def slot(E, o, a):
        # a slot of the class of the value
        if not E.branch(is_(o.e, 'slots')):
            raise Unsupported('attribute of a value without slots')
        return Sym(Val, vslot(o.e, E.z(a, Key)))
    Val.hooks = {
        'isinstance': isinst, 'iter': iter_, 'len': len_, 'getitem': item,
        'contains': contains, 'hasattr': hasattr_, 'getattr': getattr_,
        'getattr_sym': slot, 'type': lambda E, o: Sym(Cls, vcls(o.e)),
        'eq': lambda E, a, b: veq(a.e, b.e)
        if isinstance(b, Sym) and b.t == Val else None}


def t_deep(E, kinds, way):
    """one level of the comparison: the components are compared through the
    contract of the comparison itself (induction on the depth)"""
    deep_setup(E)
    a, b = E.const('a', Val), E.const('b', Val)
    D = E.const('decimal', TInt)
    X = E.const('exclude', Keys)
    prec = D.e if way else z3.IntVal(7)
    excl = X.e if way else Keys.nil
    obj = kinds == ('object',)
    A, B = (vdict(a.e), vdict(b.e)) if obj else (a.e, b.e)
    mem = E.memfold(Keys)
    out = lambda k: mem(excl, k)
    VM = TMap(Key, Val)
    nothing = VM.mk(z3.K(Key.sort(), F), z3.K(Key.sort(),
                                              E.default_of(Val)))
    kept = E.add_fold(Fold('kept keys', Key, Keys, Keys.nil, lambda s, x, p:
                           z3.If(out(x), s, Keys.rawsnoc(s, x))))
    maps = [E.add_fold(Fold(
        'kept items of %s' % n, Key, VM, nothing, lambda m, x, p, V=V: z3.If(
            out(x), m, VM.mk(z3.Store(VM.has(m), x, T), z3.Store(
                VM.val(m), x, vget(V, x)))))) for n, V in (
                    ('a', A), ('b', B))]
    nth = lambda s, i: E.nth(Sym(Vals, s), i).e
    pairs = E.add_fold(Fold(
        'pairs deeply equal', Val, TBool, T, lambda r, x, p: z3.And(
            r, DEQ(x, nth(vitems(B), E.len(Vals, p))))))
    agree = E.add_fold(Fold(
        'values deeply equal', Key, TBool, T, lambda r, x, p: z3.And(
            r, z3.Or(out(x), z3.And(mem(vkeys(B), x), DEQ(
                vget(A, x), vget(B, x)))))))
    slots = E.add_fold(Fold(
        'slots deeply equal', Key, TBool, T, lambda r, x, p: z3.And(
            r, z3.Or(out(x), DEQ(vslot(a.e, x), vslot(b.e, x))))))
    k0, t0 = z3.Const('k', Key.sort()), z3.Const('keys', Keys.sort())
    ln = lambda s: E.len(Keys, s)
    dist = E.add_fold(Fold('distinct keys', Key, TBool, T, lambda r, x, p:
                           z3.And(r, z3.Not(mem(p, x))), auto=False))
    sub = Fold('all among', Key, TBool, T, lambda r, x, p, t: z3.And(
        r, mem(t, x)), params=[Keys], auto=False)
    less = Fold('without', Key, Keys, Keys.nil, lambda s, x, p, k: z3.If(
        x == k, s, Keys.rawsnoc(s, x)), params=[Key], auto=False)
    wild = lambda f: E.induct(f.__doc__, Keys, lambda s: f(s, t0, k0))

    probe = z3.Const('probe', Key.sort())

    def without(s, t, k):
        """the keys without one"""
        return mem(less(s, k), probe) == z3.And(mem(s, probe), probe != k)
    wild(without)

    def shorter(s, t, k):
        """distinct keys without one"""
        return z3.Implies(dist(s), z3.And(dist(less(s, k)), ln(
            less(s, k)) == ln(s) - z3.If(mem(s, k), 1, 0)))
    E.induct(shorter.__doc__, Keys, lambda s: shorter(s, t0, k0),
             using=lambda p, x: z3.substitute(
                 without(p, t0, k0), (probe, x)))

    def among(s, t, k):
        """all among the keys without one"""
        return z3.Implies(z3.And(sub(s, t), z3.Not(mem(s, k))),
                          sub(s, less(t, k)))
    E.induct(among.__doc__, Keys, lambda s: among(s, t0, k0),
             using=lambda p, x: z3.substitute(
                 without(t0, t0, k0), (probe, x)))

    def pigeons(s, t):
        return z3.Implies(z3.And(dist(s), dist(t), sub(s, t)),
                          ln(s) <= ln(t))
    # by induction on s, for all t
    p0 = z3.Const('some keys', Keys.sort())
    E.reg(Keys, p0), E.reg(Keys, t0)
    E.prove('lemma pigeons: base', pigeons(Keys.nil, t0))
    E.prove('lemma pigeons: step', z3.Implies(z3.And(
        pigeons(p0, less(t0, k0)), shorter(t0, t0, k0),
        among(p0, t0, k0)), pigeons(Keys.rawsnoc(p0, k0), t0)))

    def kept_keys(s):
        return z3.And(agree(kept(s)) == agree(s), z3.Implies(
            dist(s), dist(kept(s))), mem(kept(s), probe) == z3.And(
                mem(s, probe), z3.Not(out(probe))))
    kept_at = lambda s, x: z3.substitute(kept_keys(s), (probe, x))
    kept_mem = E.induct('the kept keys', Keys, lambda s: mem(
        kept(s), probe) == z3.And(mem(s, probe), z3.Not(out(probe))))
    E.induct('the values of the kept keys', Keys, kept_keys,
             using=lambda p, x: z3.substitute(kept_mem(p), (probe, x)))

    def kept_items(s, m, V):
        return z3.And(
            z3.Select(VM.has(m(s)), probe) == z3.And(
                mem(s, probe), z3.Not(out(probe))),
            z3.Implies(z3.Select(VM.has(m(s)), probe), z3.Select(
                VM.val(m(s)), probe) == vget(V, probe)))
    for m, V in zip(maps, (A, B)):
        E.induct('the kept items', Keys, lambda s: kept_items(s, m, V))
    KA, KB = vkeys(A), vkeys(B)
    SA, SB = kept(KA), kept(KB)
    first = E.induct('what agrees is among the others', Keys, lambda s:
                     z3.Implies(agree(s), sub(kept(s), SB)),
                     using=lambda p, x: kept_at(KB, x))
    hyp = z3.And(dist(SA), dist(SB), sub(SA, SB), ln(SA) == ln(SB))
    back = E.induct('as many of the same are all', Keys, lambda s: z3.Implies(
        z3.And(hyp, sub(s, SB)), sub(s, SA)), using=lambda p, x: pigeons(
            Keys.rawsnoc(SA, x), SB))
    # a dictionary is traversed in any order
    good = lambda x: z3.Or(out(x), z3.And(mem(KB, x), DEQ(
        vget(A, x), vget(B, x))))
    bad = E.add_fold(Fold(
        'a key that disagrees', Key, Key, E.default_of(Key),
        lambda r, x, p: z3.If(good(x), r, x), auto=False))
    each = E.induct('what agrees, key by key', Keys, lambda s: z3.Implies(
        z3.And(agree(s), mem(s, probe)), good(probe)))
    some = E.induct('some key disagrees', Keys, lambda s: z3.Implies(
        z3.Not(agree(s)), z3.And(mem(s, bad(s)), z3.Not(good(bad(s))))))

    def order(E, v, s, link):
        if s.t != Keys:
            return
        E.assume(z3.And(some(s.e), some(KA)))
        for k in bad(s.e), bad(KA):
            link(k)
            for q in s.e, KA:
                E.assume(z3.substitute(each(q), (probe, k)))
            E.assume(z3.substitute(kept_items(KA, maps[0], A), (probe, k)))
    E.set_hooks.append(order)
    weaker = E.induct('among more keys', Keys, lambda s: z3.Implies(
        sub(s, t0), sub(s, Keys.rawsnoc(t0, k0))))
    itself = E.induct('all among themselves', Keys, lambda s: sub(s, s),
                      using=lambda p, x: z3.substitute(
                          weaker(p), (t0, p), (k0, x)))
    IA, IB = vitems(a.e), vitems(b.e)
    structure = {
        'list': lambda: z3.And(
            is_(b.e, 'list', 'tuple', 'iterable'),
            E.len(Vals, IA) == E.len(Vals, IB), pairs(IA)),
        'dict': lambda: z3.And(is_(b.e, 'dict'), same_items()),
        'object': lambda: z3.And(vcls(a.e) == vcls(b.e), same_items()),
        'slots': lambda: z3.And(vcls(a.e) == vcls(b.e),
                                slots(slotsof(vcls(a.e)))),
        'number': lambda: z3.And(is_(b.e, *NUMBERS),
                                 vnear(a.e, b.e, prec)),
        'other': lambda: veq(a.e, b.e)}

    def same_items():
        """the same keys (but for those excluded) with equal values"""
        return z3.And(sub(SA, SB), sub(SB, SA), agree(KA))

    def at(E, seq, p, x, rest):
        if seq.t == Keys:
            E.assume(mem(seq.e, x))
            for s in KA, KB:
                E.assume(kept_at(s, x))
            if way:
                E.assume(z3.Implies(X.e == Keys.nil, z3.Not(out(x))))
            for m, V, s in zip(maps, (A, B), (KA, KB)):
                for q in s, p:
                    E.assume(z3.substitute(kept_items(q, m, V), (probe, x)))
    E.split_hooks.append(at)

    def run():
        E.assume(is_(a.e, *kinds))
        E.assume(z3.And(*[z3.And(kindof(vcls(v)) >= 0, kindof(
            vcls(v)) < len(KINDS)) for v in (a.e, b.e)]))
        if obj:
            E.assume(is_(A, 'dict'))
            E.assume(z3.Implies(is_(b.e, 'object'), is_(B, 'dict')))
        for t, s in (Keys, KA), (Keys, KB), (Vals, IA), (Vals, IB):
            E.reg(t, s)
        E.assume(z3.And(dist(KA), dist(KB)))
        for l in (kept_keys(KA), kept_keys(KB), first(KA), back(SB), itself(SB),
                  pigeons(SA, SB), pigeons(SB, SA)):
            E.assume(l)
        mod = E.lookup_path('general.deep_eq').module
        level = []

        def compare(E, args, kw):
            """raises an AssertionError exactly when the two differ"""
            if not level:
                level.append(1)
                try:
                    return E.run_func(helper, args, kw)
                finally:
                    level.pop()
            locs = E.bind_args(helper, list(args), dict(kw))[0]
            par = [x['id'] for x in helper.node['args']['args']]
            got = dict((n, locs[i]) for i, n in enumerate(par))
            x, y = got.pop(par[0]), got.pop(par[1])
            E.prove('the same precision at every depth', E.eq(
                got.pop('decimal'), Sym(TInt, prec)))
            ex = got.pop('exclude')
            E.prove('the same exclusions at every depth', E.z(
                E.new_list([]) if ex is None else ex, Keys) == excl)
            if got:
                raise Unsupported('other arguments')
            if not E.branch(DEQ(E.z(x, Val), E.z(y, Val))):
                msg = E.fresh('message', TStr)
                E.assume(msg.e != '')
                E.raise_('AssertionError', msg)
            return None
        helper = E.lookup_path('general._deep_eq')
        E.contracts['general._deep_eq'] = compare

        def almost(E, args, kw):
            d = kw.get('decimal', args[2] if len(args) > 2 else 7)
            if not E.branch(vnear(E.z(args[0], Val), E.z(args[1], Val),
                                  E.z(d, TInt))):
                msg = E.fresh('message', TStr)
                E.assume(msg.e != '')
                E.raise_('AssertionError', msg)
        E.externals['numpy.testing.assert_almost_equal'] = almost
        args = [a, b] + ([D, E.new_list(X)] if way else [])
        r = E.call(E.lookup_path('general.deep_eq'), args)
        want = structure[kinds[0] if kinds[0] in structure else 'number'
                         if kinds[0] in NUMBERS else 'list'
                         if kinds[0] in ('list', 'tuple', 'iterable')
                         else 'other']()
        r = E.content(r)
        eq, msg = r
        E.prove('equality is reported exactly when the structures agree',
                E.truth_e(eq) == want)
        E.prove('the message is empty exactly on equality',
                (E.z(msg, TStr) == '') == want)
        reach(E, 'equal' if E.branch(want) else 'different')
    return run


TASKS = {
    'C01': [Task('block_splitter', t_splitter, G,
                 covers=['accepted', 'refused']),
            Task('block_splitter by keyword', t_splitter_kw, G,
                 covers=['accepted', 'refused']),
            Task('block_splitter default weight and kind',
                 t_splitter_default, G, covers=['accepted', 'refused']),
            Task('block_splitter default kind', t_splitter_weights, G,
                 covers=['accepted', 'refused']),
            Task('split_in_blocks', t_hint, G,
                 covers=['accepted', 'refused']),
            Task('lossless', t_lossless, G, covers=['end'])],
    'C02': [Task('block_splitter', t_splitter, G,
                 covers=['accepted', 'refused']),
            Task('block_splitter by keyword', t_splitter_kw, G,
                 covers=['accepted', 'refused']),
            Task('block_splitter default weight and kind',
                 t_splitter_default, G, covers=['accepted', 'refused']),
            Task('block_splitter default kind', t_splitter_weights, G,
                 covers=['accepted', 'refused']),
            Task('bounded', t_bounded, G, covers=['end'])],
    'C03': [Task('split_in_blocks', t_hint, G,
                 covers=['accepted', 'refused']),
            Task('split_in_blocks defaults', t_hint_default, G,
                 covers=['accepted', 'refused']),
            Task('number of blocks', t_hint_count, G, covers=['end'])],
    'C04': [Task('constructor', t_ws_ctor, G, covers=['end']),
            Task('extend', t_ws_extend, G, covers=['extend', '__iadd__']),
            Task('append', t_ws_append, G, covers=['end']),
            Task('insert', t_ws_insert, G, covers=['end']),
            Task('add', t_ws_add, G, covers=['end']),
            Task('merge', t_ws_merge, G, covers=['end']),
            Task('order', t_ws_order, G, covers=['end']),
            Task('equality', t_ws_eq, G, covers=['end'])],
    'C05': [Task('distinct', t_distinct, G, covers=['end'])],
    'C06': [Task('values: %s, %s' % (', '.join(k), n), lambda E, k=k, w=w:
                 t_deep(E, k, w), G, covers=['equal', 'different'])
            for n, w in (('defaults', False), ('given precision', True))
            for k in (('list', 'tuple'), ('iterable',), ('dict',),
                      ('object',), ('slots',), NUMBERS,
                      ('str', 'unicode', 'other'))],
}
