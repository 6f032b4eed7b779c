"""logictree.py: enumeration, sampling, parsing and validation of logic
trees."""
from fractions import Fraction

from .base import *     # noqa
from pydv.engine import HZip, HSet, walk
from pydv.regex import language
from pydv.types import T as T_base

Val = TObj('Val')
BS = TObj('BranchSet')
Br = TObj('Branch', attrs={'weight': TReal, 'branch_id': TStr, 'value': Val,
                           'child_branchset': TOpt(BS)})
Brs = TSeq(Br)
BS.attrs.update(branches=Brs, uncertainty_type=TStr)
Br.hooks['notnone'] = True      # instances
Paths = TSeq(Brs)
OBS = TOpt(BS)
child = Br.attrfn('child_branchset')
weight = Br.attrfn('weight')
bid = Br.attrfn('branch_id')
value = Br.attrfn('value')
branches = BS.attrfn('branches')
pathsof = z3.Function('paths_of', BS.sort(), Paths.sort())
decimalf = z3.Function('decimal_of', z3.StringSort(), z3.RealSort())


def setup(E):
    E.externals['decimal.Decimal'] = decimal


def decimal(E, args, kw):
    """decimal.Decimal(text): exact"""
    if isinstance(args[0], str):
        return Fraction(args[0])
    return Sym(TReal, decimalf(E.z(args[0], TStr)))


# ------------------------------------------------------------ enumeration
# A path is built by the code as nested pairs [[[], b1], b2]; its term is
# the sequence b1, b2 (TPath wraps the same sequences).
PathSort = z3.DeclareSort('O_Path')
unwrap = z3.Function('unwrap', PathSort, Brs.sort())


def p_iter(E, o):
    s = unwrap(o.e)
    if not E.branch(s != Brs.nil):
        return E.new_list([])
    i = E.fresh('path', Path)
    front, b = E.unfold_last(Brs, s)
    E.assume(unwrap(i.e) == front)
    return E.new_list([i, Sym(Br, b)])


def p_truth(E, o):
    return E.reg(Brs, unwrap(o.e)) != Brs.nil


Path = TObj('Path', hooks={'truth': p_truth, 'iter': p_iter,
                           'len': lambda E, o: Sym(TInt, z3.If(
                               unwrap(o.e) == Brs.nil, 0, 2))})
NPaths = TSeq(Path)


def path_of(E, v):
    """the sequence of branches of a path (nested pairs)"""
    if isinstance(v, Sym):
        if v.t == Path:
            return unwrap(v.e)
        raise Unsupported('a path of type %s' % v.t.name)
    c = E.content(v)
    if isinstance(c, Sym):
        raise Unsupported('a path of type %s' % c.t.name)
    if not c:
        return Brs.nil
    if len(c) == 2:
        return Brs.rawsnoc(path_of(E, c[0]), E.z(c[1], Br))
    raise Unsupported('not a path: %r' % (c,))


class Tree(object):
    """paths_of(bs): all the paths below a branch set, in document order"""

    def __init__(self, E):
        setup(E)
        self.E = E
        cat = lambda a, b: E.cat(Brs, a, b)
        # ext(s, P): every path of s with P in front
        self.ext = ext = E.add_fold(Fold(
            'ext', Brs, Paths, lambda P: Paths.nil, lambda a, x, p, P:
            Paths.rawsnoc(a, cat(P, x)), params=[Brs],
            hom=lambda a, b: E.cat(Paths, a, b), auto=False))
        one = lambda b: Brs.rawsnoc(Brs.nil, b)
        # the paths below the branches, with P in front
        self.below = E.add_fold(Fold(
            'below', Br, Paths, lambda P: Paths.nil, lambda a, b, p, P: z3.If(
                OBS.is_none(child(b)),
                Paths.rawsnoc(a, Brs.rawsnoc(P, b)),
                E.cat(Paths, a, self.ext(pathsof(OBS.val(child(b))),
                                         Brs.rawsnoc(P, b)))),
            params=[Brs], auto=False))
        P0 = z3.Const('P0', Brs.sort())
        b0 = z3.Const('b0', Br.sort())
        self.assoc = E.induct(
            'P ++ ([b] ++ x) = (P ++ [b]) ++ x', Brs,
            lambda x: cat(P0, cat(one(b0), x)) == cat(
                Brs.rawsnoc(P0, b0), x))

        def c2(s):
            k = s
            if z3.is_app(s) and s.num_args() == 2:
                self._ass(s.arg(1), P0, b0)
            return ext(ext(s, one(b0)), P0) == ext(s, Brs.rawsnoc(P0, b0))
        E.induct('prefixing twice', Paths, c2)

        def c3(s):
            if z3.is_app(s) and s.num_args() == 2:
                self.twice(pathsof(OBS.val(child(s.arg(1)))), P0, s.arg(1))
            return ext(self.below(s, Brs.nil), P0) == self.below(s, P0)
        E.induct('prefixing the paths below', Brs, c3)

    def _ass(self, x, P, b):
        E = self.E
        E.assume(E.cat(Brs, P, E.cat(Brs, Brs.rawsnoc(Brs.nil, b), x)) ==
                 E.cat(Brs, Brs.rawsnoc(P, b), x))

    def twice(self, s, P, b):
        self.E.assume(self.ext(self.ext(s, Brs.rawsnoc(Brs.nil, b)), P) ==
                      self.ext(s, Brs.rawsnoc(P, b)))

    def prefixed(self, s, P):
        """lemma instance: ext(below(s, []), P) = below(s, P)"""
        self.E.assume(self.ext(self.below(s, Brs.nil), P) ==
                      self.below(s, P))


def recursive_method(E):
    """the recursive generator method of BranchSet (whatever its name)"""
    cls = E.lookup_path('logictree.BranchSet')
    res = []
    for n, f in sorted(cls.attrs.items()):
        if isinstance(f, FuncV) and f.is_gen and any(
                x['_'] == 'Attribute' and x['attr'] == n
                for x in walk(f.node['body'])):
            res.append(f)
    if len(res) != 1:
        raise Unsupported('one recursive enumeration: %r' % (res,))
    return res[0]


def branchset(E, B, **kw):
    """a branch set with the branches B, built by its constructor"""
    utype = kw.get('utype', 'x')
    bs = E.call(E.lookup_path('logictree.BranchSet'),
                [utype, kw.get('filters') or E.alloc(HDict())])
    E.setattr(bs, 'branches', E.new_list(B))
    return bs


def t_recursive(E):
    """_enumerate_paths(prefix) yields the paths of the tree below with the
    prefix in front; the recursive calls are by this contract (the tree is
    finite)"""
    tr = Tree(E)
    B = E.const('B', Brs)
    P = E.const('P', Brs)
    tr.below.insts = [(P.e,), (Brs.nil,)]
    tr.below.auto = True

    def run():
        f = recursive_method(E)

        def recursive(E, o, args, kw):
            X = E.fresh('subpaths', Paths)
            E.assume(X.e == tr.ext(pathsof(o.e), path_of(E, args[0])))
            return wrapped(E, X)
        BS.meths[f.name] = recursive
        bs = branchset(E, B)
        pre = E.const('prefix', Path)
        E.assume(unwrap(pre.e) == P.e)
        out = E.new_list(Sym(Paths, Paths.nil))

        def body(v):
            E.call(E.getattr(out, 'append'), [Sym(Brs, path_of(E, v))])
        cell = []
        gen = E.run_func(f, [bs, pre], {})
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
        E.prove('yields every path once, in order, after the prefix',
                E.z(out, Paths) == tr.below(B.e, P.e))
        tr.prefixed(B.e, P.e)
        E.prove('the contract of the recursion',
                E.z(out, Paths) == tr.ext(tr.below(B.e, Brs.nil), P.e))
        reach(E, 'end')
    return run


def wrapped(E, X):
    """the same paths as nested pairs: a generator over X"""
    def item(x):
        v = E.fresh('path', Path)
        E.assume(unwrap(v.e) == x.e)
        return v
    return E.alloc(HZip([X], lambda vals: item(vals[0])))


Wp = TTup(TReal, Brs)
Wps = TSeq(Wp)


def prodfold(E):
    """the product of the weights of a path"""
    return E.add_fold(Fold('product', Br, TReal, z3.RealVal(1),
                           lambda a, b, p: a * weight(b), auto=False))


def path_loop(prod):
    """candidate invariants of a loop walking up a path"""
    def tmpl(E, seq, L0, node):
        if seq is not None:
            return []
        out = []
        P = [n for n, (t, e) in L0.items() if t == Path and e is not None]
        W = [n for n, (t, e) in L0.items() if t is TReal and e is not None]
        S = [n for n, (t, e) in L0.items() if t == Brs and e is not None]
        for a in P:
            p0 = unwrap(L0[a][1])
            for w in W:
                out.append(('%s * product(%s) is constant' % (w, a),
                            lambda p, L, a=a, w=w, p0=p0: L[w][1] * prod(
                                unwrap(L[a][1])) == L0[w][1] * prod(p0)))
            for q in S:
                rev = E.revfold(Brs)
                out.append(('%s ++ reversed(%s) is constant' % (a, q),
                            lambda p, L, a=a, q=q, p0=p0: E.cat(
                                Brs, unwrap(L[a][1]), rev(L[q][1])) == p0))
                out.append(('%s ++ %s is constant' % (a, q),
                            lambda p, L, a=a, q=q, p0=p0: E.cat(
                                Brs, unwrap(L[a][1]), L[q][1]) == p0))
        return out
    return tmpl


def pairfold(E, prod):
    """every path with the product of its weights"""
    return E.add_fold(Fold(
        'weighted paths', Brs, Wps, Wps.nil, lambda a, x, p:
        Wps.rawsnoc(a, Wp.mk(prod(x), x))))


def t_enumerate(E):
    """enumerate_paths yields every path with the product of its weights"""
    tr = Tree(E)
    B = E.const('B', Brs)
    prod = prodfold(E)
    pairs = pairfold(E, prod)
    E.templates.append(path_loop(prod))
    X = tr.below(B.e, Brs.nil)

    def run():
        f = recursive_method(E)

        def recursive(E, args, kw):
            P = path_of(E, args[1])
            E.prove('the paths of this branch set', args[0] == bs)
            tr.prefixed(B.e, P)
            E.prove('without a prefix', P == Brs.nil)
            return wrapped(E, Sym(Paths, tr.below(B.e, P)))
        E.contracts[f.qualname] = recursive
        bs = branchset(E, B)
        gen = E.call(E.getattr(bs, 'enumerate_paths'), [])
        out = E.new_list(Sym(Wps, Wps.nil))

        def body(v):
            w, path = E.content(v)
            E.call(E.getattr(out, 'append'), [
                Sym(Wp, Wp.mk(E.z(w, TReal), E.z(path, Brs)))])
        cell = []
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
        E.prove('each path once, in order, with the product of its weights',
                E.z(out, Wps) == pairs(X))
        reach(E, 'end')
    return run


def t_weights(E):
    """if the weights of every branch set sum to 1, so do those of the
    paths; by induction on the (finite) tree: the claim for the children
    is the induction hypothesis"""
    tr = Tree(E)
    prod = prodfold(E)
    total = E.add_fold(Fold('total', Brs, TReal, z3.RealVal(0),
                            lambda a, x, p: a + prod(x),
                            hom=lambda a, b: a + b))
    wsum = E.add_fold(Fold('wsum', Br, TReal, z3.RealVal(0),
                           lambda a, b, p: a + weight(b)))
    b0 = z3.Const('b0', Br.sort())
    one = Brs.rawsnoc(Brs.nil, b0)

    def c1(x):
        return prod(E.cat(Brs, one, x)) == weight(b0) * prod(x)
    E.induct('weight of a path', Brs, c1)

    def c2(s):
        if z3.is_app(s) and s.num_args() == 2:
            E.assume(c1(s.arg(1)))
        return total(tr.ext(s, one)) == weight(b0) * total(s)
    E.induct('total weight of the paths through a branch', Paths, c2)

    def c3(s):
        if z3.is_app(s) and s.num_args() == 2:
            b = s.arg(1)
            q = pathsof(OBS.val(child(b)))
            # lemma, and the induction hypothesis for the child
            E.assume(total(tr.ext(q, Brs.rawsnoc(Brs.nil, b))) ==
                     weight(b) * total(q))
            E.assume(z3.Implies(z3.Not(OBS.is_none(child(b))),
                                total(q) == 1))
        return total(tr.below(s, Brs.nil)) == wsum(s)
    E.induct('total weight below', Brs, c3)

    def run():
        B = E.const('B', Brs)
        E.assume(c3(B.e))
        E.assume(wsum(B.e) == 1)
        E.prove('the weights of the paths sum to 1',
                total(tr.below(B.e, Brs.nil)) == 1)
        reach(E, 'end')
    return run


Lt = TTup(Val, TReal, TSeq(TStr))
Lts = TSeq(Lt)


def idsfold(E):
    return E.add_fold(Fold('ids', Br, TSeq(TStr), TSeq(TStr).nil,
                           lambda a, b, p: TSeq(TStr).rawsnoc(a, bid(b))))


def make_tree(E, **kw):
    """a source model logic tree without calling its constructor: only the
    attributes given exist"""
    cls = E.lookup_path('logictree.SourceModelLogicTree')
    return E.alloc(HInst(cls, kw))


def t_iter(E):
    """iterating without sampling: the realizations of the paths"""
    prod = prodfold(E)
    ids = idsfold(E)
    W = E.const('W', Wps)
    head = E.headfold(Brs)
    reals = E.add_fold(Fold(
        'realizations', Wp, Lts, Lts.nil, lambda a, x, p: Lts.rawsnoc(
            a, Lt.mk(value(head(Wp.get(x, 1))), Wp.get(x, 0),
                     ids(Wp.get(x, 1))))))
    nonempty = E.add_fold(Fold(
        'no empty path', Wp, TBool, T, lambda a, x, p: z3.And(
            a, Wp.get(x, 1) != Brs.nil), hom=z3.And))

    def run():
        Root = TObj('Root', meths={
            'enumerate_paths': lambda E, o, a, k: E.new_list(W)})
        root = E.const('root', Root)
        E.assume(nonempty(W.e))
        t = make_tree(E, num_samples=0, seed=E.const('seed', TInt),
                      root_branchset=root)
        gen = E.call(E.getattr(t, '__iter__'), [])
        out = E.new_list(Sym(Lts, Lts.nil))

        def body(v):
            E.prove('a realization', E.h(v).cls is E.lookup_path(
                'logictree.LtRealization'))
            E.call(E.getattr(out, 'append'), [Sym(Lt, Lt.mk(
                E.z(E.getattr(v, 'value'), Val),
                E.z(E.getattr(v, 'weight'), TReal),
                E.z(E.getattr(v, 'lt_path'), TSeq(TStr))))])
        cell = []
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
        E.prove('first value, weight and identifiers of every path',
                E.z(out, Lts) == reals(W.e))
        reach(E, 'end')
    return run


# --------------------------------------------------------------- sampling
OBr = TOpt(Br)
OStr = TOpt(TStr)
splitf = z3.Function('str_split_', z3.StringSort(), TSeq(TStr).sort())
drawf = z3.Function('draw', z3.IntSort(), z3.IntSort(), z3.RealSort())
pickf = z3.Function('pick', Brs.sort(), z3.RealSort(), Br.sort())
Strs = TSeq(TStr)


def wsumfold(E):
    return E.add_fold(Fold('wsum', Br, TReal, z3.RealVal(0),
                           lambda a, b, p: a + weight(b)))


def generator(E, seed=0, pos=0):
    """a random generator: the k-th number drawn is a function of the seed
    and k, in [0, 1)"""
    r = E.alloc(HInst(E.make_class('Random', [OBJECT], {}, None), {
        'seed': seed, 'pos': pos}))

    def rand(E, a, k):
        h = E.h(r).attrs
        d = drawf(E.z(h['seed'], TInt), E.z(h['pos'], TInt))
        E.assume(z3.And(0 <= d, d < 1))
        E.setattr(r, 'pos', Sym(TInt, E.z(h['pos'], TInt) + 1))
        return Sym(TReal, d)
    E.h(r).attrs['random'] = UFun('random', rand)
    return r


def t_sample_one(E):
    """the first branch whose cumulative weight reaches the number drawn"""
    setup(E)
    seed, pos = E.const('seed', TInt), E.const('pos', TInt)
    d = drawf(seed.e, pos.e)
    wsum = wsumfold(E)
    pick = E.add_fold(Fold('first reaching', Br, OBr, OBr.none,
                           lambda a, b, p: z3.If(
                               OBr.is_none(a), z3.If(
                                   wsum(p) + weight(b) >= d,
                                   OBr.some(b), OBr.none), a)))
    none = lambda s: OBr.is_none(pick(s))
    below = E.add_fold(Fold('all below the draw', Br, TBool, T,
                            lambda a, b, p: z3.And(a, wsum(p) + weight(b) < d)
                            ))
    same = E.induct('nothing reaches the draw', Brs,
                    lambda s: below(s) == none(s))
    last = E.induct('nothing reaches: the sum is below the draw', Brs,
                    lambda s: z3.Implies(none(s), z3.Or(
                        s == Brs.nil, wsum(s) < d)))
    mem = E.memfold(Brs)
    member = E.induct('the branch is one of the set', Brs, lambda s:
                      z3.Implies(z3.Not(none(s)),
                                 mem(s, OBr.val(pick(s)))))
    r = z3.Const('head', Brs.sort())
    E.induct('the first one stays', Brs, lambda s: z3.Implies(
        z3.Not(none(r)), pick(E.cat(Brs, r, s)) == pick(r)))

    def at(E, seq, p, x, rest):
        if seq.t == Brs:
            E.assume(same(p))
            px = Brs.rawsnoc(p, x)
            E.assume(z3.Implies(z3.Not(none(px)), pick(seq.e) == pick(px)))
    E.split_hooks.append(at)
    S = E.const('S', Brs)

    def run():
        E.assume(wsum(S.e) == 1)
        E.assume(last(S.e))
        E.assume(same(S.e))
        E.assume(member(S.e))
        rnd = generator(E, seed, pos)
        v, exc = attempt(E, lambda: E.call(
            E.lookup_path('logictree.sample_one'), [S, rnd]))
        E.prove('a branch is found', exc is None)
        if exc is not None:
            return
        E.prove('the first one whose cumulative weight reaches the draw',
                OBr.some(E.z(v, Br)) == pick(S.e))
        E.prove('a branch of the set', mem(S.e, E.z(v, Br)))
        E.prove('one number is drawn',
                E.z(E.getattr(rnd, 'pos'), TInt) == pos.e + 1)
        reach(E, 'end')
    return run


def t_sample(E):
    """n samples: n draws, n branches"""
    setup(E)
    S = E.const('S', Brs)
    R = E.const('R', TSeq(TNone))
    n = Sym(TInt, E.len(R.t, R.e))
    seed, pos = E.const('seed', TInt), E.const('pos', TInt)
    nth = lambda k: pickf(S.e, drawf(seed.e, k))
    picks = E.add_fold(Fold(
        'picks', TNone, Brs, Brs.nil, lambda a, x, p: Brs.rawsnoc(
            a, nth(pos.e + E.len(TSeq(TNone), p)))))
    nlem = E.induct('as many branches as samples', TSeq(TNone), lambda s:
                    E.len(Brs, picks(s)) == E.len(TSeq(TNone), s))

    def run():
        rnd = generator(E, seed, pos)

        def one(E, a, k):
            E.prove('sampled from the branches given', E.z(a[0], Brs) == S.e)
            E.prove('with the generator given', a[1] == rnd)
            return Sym(Br, pickf(S.e, E.z(
                E.call(E.getattr(rnd, 'random'), []), TReal)))
        E.contracts['logictree.sample_one'] = one
        v = E.call(E.lookup_path('logictree.sample'), [S, n, rnd])
        E.prove('one branch per number drawn', E.z(v, Brs) == picks(R.e))
        E.assume(nlem(R.e))
        E.prove('n branches', E.len(Brs, E.z(v, Brs)) == n.e)
        E.prove('n numbers are drawn',
                E.z(E.getattr(rnd, 'pos'), TInt) == pos.e + n.e)
        reach(E, 'end')
    return run


def t_sample_path(E):
    """a sampled path goes from the root to a leaf, each branch drawn from
    the branch set below the one before"""
    setup(E)
    S = E.const('S', Brs)
    FIRST = E.const('first', Br)
    seed, pos = E.const('seed', TInt), E.const('pos', TInt)
    ids = idsfold(E)
    mem = E.memfold(Brs)
    cur = E.add_fold(Fold('current', Br, OBS, OBS.none,
                          lambda a, b, p: child(b)))
    draw = lambda p: drawf(seed.e, pos.e + E.len(Brs, p))
    ok = E.add_fold(Fold(
        'drawn', Br, TBool, T, lambda a, b, p: z3.If(
            p == Brs.nil, b == FIRST.e, z3.And(
                a, z3.Not(OBS.is_none(cur(p))),
                mem(branches(OBS.val(cur(p))), b),
                b == pickf(branches(OBS.val(cur(p))), draw(p))))))
    head, headid = E.headfold(Brs), E.headfold(Strs)
    noid = E.add_fold(Fold('no branch has the first identifier', Br, TBool,
                           T, lambda a, b, p: z3.And(
                               a, bid(b) != bid(FIRST.e)), hom=z3.And))
    absent = E.induct('a member has an identifier', Brs, lambda s:
                      z3.Not(z3.And(noid(s), mem(s, FIRST.e))))

    def tmpl(E, seq, L0, node):
        if seq is not None:
            return []
        out = []
        Q = [n for n, (t, e) in L0.items() if t == Brs]
        B = [n for n, (t, e) in L0.items() if t == OBS]
        I = [n for n, (t, e) in L0.items() if t == Strs]
        N = [n for n, (t, e) in L0.items() if t is TInt]
        for q in Q:
            out.append(('%s is drawn' % q, lambda p, L, q=q: ok(L[q][1])))
            out.append(('%s starts with the first' % q, lambda p, L, q=q:
                        z3.And(L[q][1] != Brs.nil,
                               head(L[q][1]) == FIRST.e)))
            out += [('%s is below %s' % (b, q), lambda p, L, q=q, b=b:
                     L[b][1] == cur(L[q][1])) for b in B]
            out += [('%s numbers %s' % (n, q), lambda p, L, q=q, n=n:
                     L[n][1] == pos.e + E.len(Brs, L[q][1])) for n in N]
            for i in I:
                out.append(('%s = ids(%s)' % (i, q), lambda p, L, q=q, i=i:
                            L[i][1] == ids(L[q][1])))
                out.append(('%s starts with the first' % i,
                            lambda p, L, i=i: z3.And(
                                L[i][1] != Strs.nil,
                                headid(L[i][1]) == bid(FIRST.e))))
        return out
    E.templates.append(tmpl)

    def at(E, seq, p, x, rest):
        # the identifiers of a branch set are distinct
        if seq.t == Brs:
            E.assume(z3.Implies(bid(x) == bid(FIRST.e), x == FIRST.e))
    E.split_hooks.append(at)

    def run():
        rnd = generator(E, seed, pos)
        path = E.new_list([])
        root = branchset(E, S)

        def one(E, a, k):
            E.prove('with the generator given', a[1] == rnd)
            b = E.z(a[0], Brs)
            d = E.z(E.call(E.getattr(rnd, 'random'), []), TReal)
            r = pickf(b, d)
            E.assume(mem(b, r))         # contract of sample_one
            E.assume(z3.Implies(d == drawf(seed.e, pos.e), z3.And(
                r == FIRST.e)) if not E.content(path) else T)
            E.call(E.getattr(path, 'append'), [Sym(Br, r)])
            return Sym(Br, r)

        def some(E, a, k):
            n = a[1]
            E.prove('one branch at a time', n == 1)
            return E.new_list([one(E, [a[0], a[2]], k)])
        E.contracts['logictree.sample_one'] = one
        E.contracts['logictree.sample'] = some
        t = make_tree(E, num_samples=1, root_branchset=root)
        E.assume(absent(S.e))
        r, exc = attempt(E, lambda: E.call(E.getattr(t, 'sample_path'),
                                           [rnd]))
        E.prove('the name of the first branch is found', exc is None)
        if exc is not None:
            return
        name, bids = E.content(r)
        q = E.z(path, Brs)
        E.prove('each branch is drawn from the set below', ok(q))
        E.prove('from the root', mem(S.e, FIRST.e))
        E.prove('down to a leaf', OBS.is_none(cur(q)))
        E.prove('the identifiers of its branches', E.z(bids, Strs) == ids(q))
        E.prove('the value of its first branch',
                E.z(name, Val) == value(FIRST.e))
        E.prove('one number drawn per branch', E.z(
            E.getattr(rnd, 'pos'), TInt) == pos.e + E.len(Brs, q))
        reach(E, 'end')
    return run


Sp = TTup(Val, Strs)
Sps = TSeq(Sp)


def t_iter_samples(E):
    """iterating with n samples: n sampled paths from one generator with
    the seed of the tree"""
    setup(E)
    seed = E.const('seed', TInt)
    spf = z3.Function('sampled', z3.IntSort(), z3.IntSort(), Sp.sort())
    nextf = z3.Function('after', z3.IntSort(), z3.IntSort(), z3.IntSort())
    N = TSeq(TNone)
    R = E.const('R', N)
    n = Sym(TInt, E.len(N, R.e))
    posn = E.add_fold(Fold('position', TNone, TInt, z3.IntVal(0),
                           lambda a, x, p: nextf(seed.e, a)))
    outs = E.add_fold(Fold('sampled paths', TNone, Sps, Sps.nil,
                           lambda a, x, p: Sps.rawsnoc(
                               a, spf(seed.e, posn(p)))))
    lem = E.induct('as many paths as samples', N, lambda s: E.len(
        Sps, outs(s)) == E.len(N, s))

    def run():
        E.assume(n.e >= 1)
        made = []

        def Random(E, a, k):
            E.prove('the seed of the tree', z3.And(
                len(a) == 1, E.z(a[0], TInt) == seed.e))
            r = generator(E, a[0])
            made.append(r)
            return r
        E.externals['random.Random'] = Random

        def sample_path(E, a, k):
            r = a[1]
            E.prove('one generator', r == made[0] and len(made) == 1)
            k = E.z(E.getattr(r, 'pos'), TInt)
            E.setattr(r, 'pos', Sym(TInt, nextf(seed.e, k)))
            v = spf(seed.e, k)
            return (Sym(Val, Sp.get(v, 0)), Sym(Strs, Sp.get(v, 1)))
        E.contracts['logictree.BaseLogicTree.sample_path'] = sample_path
        t = make_tree(E, num_samples=n, seed=seed, root_branchset=None)
        out = E.new_list(Sym(Sps, Sps.nil))

        def body(v):
            c = E.content(v)
            E.prove('triples without weight', len(c) == 3 and c[1] is None)
            E.call(E.getattr(out, 'append'), [Sym(Sp, Sp.mk(
                E.z(c[0], Val), E.z(c[2], Strs)))])
        cell = []
        gen = E.call(E.getattr(t, '__iter__'), [])
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
        E.assume(lem(R.e))
        E.prove('the sampled paths, in order', E.z(out, Sps) == outs(R.e))
        E.prove('n of them', E.len(Sps, E.z(out, Sps)) == n.e)
        reach(E, 'end')
    return run


# ---------------------------------------------------------------- parsing
NS = 'http://openquake.org/xmlns/nrml/0.4'
stripf = z3.Function('str_strip', z3.StringSort(), z3.StringSort())
parsef = z3.Function('parsed value', z3.StringSort(), Val.sort())
validf = z3.Function('valid value', z3.StringSort(), z3.BoolSort())
brf = z3.Function('branch', z3.StringSort(), z3.RealSort(), Val.sort(),
                  Br.sort())
DB = TMap(TStr, Br)


def nsurl(tag):
    return '{%s}%s' % (NS, tag)


TextNode = TObj('TextNode', attrs={'text': TStr, 'sourceline': TInt})


def bn_find(E, o, a, k):
    tags = {nsurl('uncertaintyWeight'): 'wnode',
            nsurl('uncertaintyModel'): 'vnode'}
    E.prove('a child of a branch', a[0] in tags)
    return E.getattr(o, tags[a[0]])


def bn_get(E, o, a, k):
    E.prove('an attribute of a branch', a[0] == 'branchID')
    return E.getattr(o, 'id')


BNode = TObj('BranchNode', attrs={
    'id': TStr, 'wnode': TextNode, 'vnode': TextNode, 'sourceline': TInt},
    meths={'find': bn_find, 'get': bn_get})
BNodes = TSeq(BNode)
nid = BNode.attrfn('id')
ntext = lambda x, a: TextNode.attrfn('text')(BNode.attrfn(a)(x))


def nid_attrib(E, o):
    return E.alloc(HDict({'branchID': Sym(TStr, nid(o.e))}))


BNode.attrs['attrib'] = nid_attrib


def new_branch(E, cls, args, kw):
    """Branch(id, weight, value): a branch without a child (t_branch)"""
    names = ['branch_id', 'weight', 'value']
    d = dict(zip(names, args))
    d.update(kw)
    a = [E.z(d[n], t) for n, t in zip(names, (TStr, TReal, Val))]
    b = brf(*a)
    E.assume(z3.And(bid(b) == a[0], weight(b) == a[1], value(b) == a[2],
                    OBS.is_none(child(b))))
    return Sym(Br, b)


def setup_xml(E):
    setup(E)


def sym_dict(E, m):
    r = E.alloc(HDict(None))
    h = E.h(r)
    h.d, h.m = None, m
    return r


def is_validation(E, exc):
    return exc_is(E, exc, 'logictree.ValidationError')


def t_parse_branches(E, cname, validate):
    setup_xml(E)
    D0 = E.const('D0', DB)
    S = None
    decw = lambda x: decimalf(stripf(ntext(x, 'wnode')))
    vtext = lambda x: stripf(ntext(x, 'vnode'))
    mk = lambda x: brf(nid(x), decw(x), parsef(vtext(x)))
    total = E.add_fold(Fold('sum of weights', BNode, TReal, z3.RealVal(0),
                            lambda a, x, p: a + decw(x)))
    brs = E.add_fold(Fold('parsed branches', BNode, Brs, Brs.nil,
                          lambda a, x, p: Brs.rawsnoc(a, mk(x))))
    reg = E.add_fold(Fold(
        'registered', BNode, DB, D0.e, lambda a, x, p: DB.mk(
            z3.Store(DB.has(a), nid(x), T),
            z3.Store(DB.val(a), nid(x), mk(x)))))
    unique = E.add_fold(Fold(
        'new identifiers', BNode, TBool, T, lambda a, x, p: z3.And(
            a, z3.Not(z3.Select(DB.has(reg(p)), nid(x))))))
    allvalid = E.add_fold(Fold('valid values', BNode, TBool, T,
                               lambda a, x, p: z3.And(a, validf(vtext(x)))))
    S = E.const('S', BNodes)
    E.construct['Branch'] = new_branch

    def run():
        self_ = E.alloc(HInst(E.lookup_path('logictree.' + cname), {
            'branches': sym_dict(E, D0), 'filename': E.const('fn', TStr),
            'basepath': E.const('bp', TStr)}))
        bs = branchset(E, Sym(Brs, Brs.nil))
        E.setattr(bs, 'branches', E.new_list([]))
        last = {}

        def val(E, a, k):
            E.prove('validated only on request', validate)
            E.prove('the branch set is known', a[2] == bs)
            t = E.z(a[3], TStr)
            if not E.branch(validf(t)):
                raise_validation(E, a[1])
            last['v'] = t

        def parse(E, a, k):
            t = E.z(a[3], TStr)
            E.prove('the branch set is known', a[2] == bs)
            if validate:
                E.prove('every value is validated before it is used',
                        'v' in last and last['v'].eq(t) or validf(t))
            return Sym(Val, parsef(t))
        for c in ('BaseLogicTree', cname):
            E.contracts['logictree.%s.validate_uncertainty_value' % c] = val
            E.contracts['logictree.%s.parse_uncertainty_value' % c] = parse

        def findall(E, o, a, k):
            E.prove('the branches of the branch set',
                    a[0] == nsurl('logicTreeBranch'))
            return E.new_list(S)
        node = E.const('node', TObj('BranchSetNode', attrs={
            'sourceline': TInt}, meths={'findall': findall}))
        r, exc = attempt(E, lambda: E.call(
            E.getattr(self_, 'parse_branches'), [node, bs, validate]))
        good = z3.And(total(S.e) == 1, unique(S.e),
                      allvalid(S.e) if validate else T)
        if exc is not None:
            E.prove('a refusal is a ValidationError', is_validation(E, exc))
            E.prove('refused only for weights, identifiers or values',
                    z3.Not(good))
            reach(E, 'refused')
            return
        E.prove('accepted only if the weights sum to 1, the identifiers are '
                'new and the values valid', good)
        E.prove('one branch per branch of the document, in order',
                E.z(E.getattr(bs, 'branches'), Brs) == brs(S.e))
        E.prove('registered by identifier',
                E.z(E.getattr(self_, 'branches'), DB) == reg(S.e))
        reach(E, 'accepted')
    return run


def raise_validation(E, node):
    cls = E.lookup_path('logictree.ValidationError')
    raise PyExc(E.mkexc(cls, ('invalid',)))


def t_branch(E):
    """Branch(...) keeps its arguments and has no child"""
    def run():
        a = [E.const('id', TStr), E.const('w', TReal), E.const('v', Val)]
        b = E.call(E.lookup_path('logictree.Branch'), a)
        for n, x in zip(('branch_id', 'weight', 'value'), a):
            E.prove('%s kept' % n, E.eq(E.getattr(b, n), x))
        E.prove('no child yet', E.getattr(b, 'child_branchset') is None)
        bs = E.call(E.lookup_path('logictree.BranchSet'), [a[0], a[2]])
        E.prove('type kept', E.eq(E.getattr(bs, 'uncertainty_type'), a[0]))
        E.prove('filters kept', E.eq(E.getattr(bs, 'filters'), a[2]))
        E.prove('no branches yet', E.content(E.getattr(
            bs, 'branches')) == [])
        reach(E, 'end')
    return run


# ------------------------------------------------------- attaching sets
CBr = TObj('CBranch', mut={'child_branchset': TOpt(BS)})
CBrs = TSeq(CBr)
CSet = TSet(CBr)
CDB = TMap(TStr, CBr)


def stores(name):
    """the leaves of array state with this attribute"""
    return lambda L: [n for n in L if n.endswith('.' + name)]


def t_apply(E, cname):
    """apply_branchset(node, bs): bs becomes the child of exactly the named
    branches, or of all open branches when none is named"""
    DB_ = E.const('branches', CDB)
    OPEN = E.const('open', CSet)
    bs = E.const('bs', BS)
    b0 = z3.Const('b0', CBr.sort())
    asort = z3.ArraySort(CBr.sort(), OBS.sort())
    A0 = z3.Const('CBranch.child_branchset@0', asort)
    some = OBS.some(bs.e)
    names = E.const('names', Strs)      # applyToBranches, split
    text = E.const('text', TOpt(TStr))
    named = cname == 'SourceModelLogicTree'

    class TArr(T_base):
        name = 'Array[CBranch,OptBranchSet]'

        def sort(self):
            return asort
    arr = TArr()
    br = lambda i: z3.Select(CDB.val(DB_.e), i)
    has = lambda i: z3.Select(CDB.has(DB_.e), i)
    # by name
    upd = E.add_fold(Fold('attached', TStr, arr, A0, lambda a, i, p:
                          z3.Store(a, br(i), some)))
    ok = E.add_fold(Fold('attachable', TStr, TBool, T, lambda a, i, p:
                         z3.And(a, has(i), z3.Select(OPEN.e, br(i)),
                                OBS.is_none(z3.Select(upd(p), br(i))))))
    hit = E.add_fold(Fold('named', TStr, TBool, F, lambda a, i, p: z3.Or(
        a, br(i) == b0)))
    l1 = E.induct('the named branches get the child', Strs, lambda s:
                  z3.Select(upd(s), b0) == z3.If(
                      hit(s), some, z3.Select(A0, b0)))
    # all the open ones
    upd2 = E.add_fold(Fold('attached', CBr, arr, A0, lambda a, b, p:
                           z3.Store(a, b, some)))
    mem = E.memfold(CBrs)
    l2 = E.induct('the members get the child', CBrs, lambda s:
                  z3.Select(upd2(s), b0) == z3.If(
                      mem(s, b0), some, z3.Select(A0, b0)))

    def elems(E, v, s, member):
        member(b0)
        E.assume(l2(s.e))
    E.set_hooks.append(elems)

    def tmpl(E, seq, L0, node):
        out = []
        for n in stores('child_branchset')(L0):
            if seq is not None and seq.t == CBrs:
                out.append(('%s: attached' % n,
                            lambda p, L, n=n: L[n][1] == upd2(p)))
            if seq is not None and seq.t == Strs:
                out.append(('%s: attached' % n,
                            lambda p, L, n=n: L[n][1] == upd(p)))
        return out
    E.templates.append(tmpl)

    def run():
        t = E.alloc(HInst(E.lookup_path('logictree.' + cname), {
            'branches': sym_dict(E, DB_), 'filename': E.const('fn', TStr),
            'basepath': E.const('bp', TStr),
            'open_ends': E.alloc(HSet(OPEN))}))
        asked = []

        def get(E, o, a, k):
            E.prove('the attribute naming branches',
                    a[0] == 'applyToBranches')
            asked.append(1)
            return E.val(TOpt(TStr), text.e)
        node = E.const('node', TObj('BranchSetNode2', attrs={
            'sourceline': TInt}, meths={'get': get}))
        given = z3.And(z3.Not(OStr.is_none(text.e)),
                       OStr.val(text.e) != z3.StringVal('')) if named else F
        E.assume(splitf(OStr.val(text.e)) == names.e)
        E.assume(l1(names.e))
        _, exc = attempt(E, lambda: E.call(
            E.getattr(t, 'apply_branchset'), [node, bs]))
        if exc is not None:
            E.prove('a refusal is a ValidationError', is_validation(E, exc))
            E.prove('refused only for an unknown, used or closed branch',
                    z3.And(given, z3.Not(ok(names.e))))
            reach(E, 'refused')
            return
        E.prove('accepted only if every named branch is open, without '
                'child and named once', z3.Or(z3.Not(given), ok(names.e)))
        now = E.array(CBr, 'child_branchset')
        E.prove('exactly the named or open branches get the child',
                z3.Select(now, b0) == z3.If(z3.If(
                    given, hit(names.e), z3.Select(OPEN.e, b0)),
                    some, z3.Select(A0, b0)))
        E.prove('the open branches stay open', z3.Select(
            E.z(E.getattr(t, 'open_ends'), CSet), b0) ==
            z3.Select(OPEN.e, b0))
        reach(E, 'end')
    return run


LBr = TObj('LBranch')
LBrs = TSeq(LBr)
LSet = TSet(LBr)
ATT = TObj('Attributes')
skipf = z3.Function('skipped', ATT.sort(), z3.BoolSort())


def t_level(E, cname, validate):
    """parse_branchinglevel: every set not skipped is parsed, filled and
    attached, the first of all becoming the root; then its branches are
    the open ones"""
    bsf = z3.Function('parsed set', z3.DeclareSort('O_LNode'),
                      z3.IntSort(), z3.IntSort(), z3.DeclareSort('O_LSet'))
    brsof = z3.Function('branches of', z3.DeclareSort('O_LSet'),
                        LBrs.sort())
    okset = z3.Function('well formed', z3.DeclareSort('O_LNode'),
                        z3.BoolSort())

    def get_branches(E, o):
        f = E.getattr(o, 'filled')
        return E.new_list(Sym(LBrs, z3.If(E.z(f, TBool), brsof(o.e),
                                          LBrs.nil)))
    LSt = TObj('LSet', attrs={'branches': get_branches},
               mut={'filled': TBool})
    OLS = TOpt(LSt)
    LNode = TObj('LNode', attrs={'attrib': ATT, 'sourceline': TInt})
    OText = TOpt(TStr)
    attf = z3.Function('attribute', ATT.sort(), z3.StringSort(),
                       OText.sort())

    def att_get(E, o, a, k):
        att = o.e if o.t is ATT else LNode.attrfn('attrib')(o.e)
        v = attf(att, E.z(a[0], TStr))
        if len(a) > 1 and E.branch(OText.is_none(v)):
            return a[1]
        return Sym(OText, v)
    LNode.meths['get'] = ATT.meths['get'] = att_get
    LNodes = TSeq(LNode)
    Ev = TTup(TInt, LNode, LSt)
    Evs = TSeq(Ev)
    D = E.const('depth', TInt)
    R0 = E.const('root', OLS)
    O0 = E.const('open', LSet)
    b0 = z3.Const('b0', LBr.sort())
    sk = lambda x: skipf(LNode.attrfn('attrib')(x))
    bs = lambda x, p: bsf(x, D.e, E.len(LNodes, p))
    empty = z3.K(LBr.sort(), F)
    adds = E.add_fold(Fold('added', LBr, LSet, lambda A: A,
                           lambda a, b, p, A: z3.Store(a, b, T),
                           params=[LSet], auto=False))
    A = z3.Const('A', LSet.sort())
    addl = E.induct('branches added', LBrs, lambda s: z3.And(
        z3.Implies(s != LBrs.nil, adds(s, A) != empty)))
    fresh = E.add_fold(Fold(
        'new open ends', LNode, LSet, empty, lambda a, x, p: z3.If(
            sk(x), a, adds(brsof(bs(x, p)), a))))
    some = E.add_fold(Fold('some set is not skipped', LNode, TBool, F,
                           lambda a, x, p: z3.Or(a, z3.Not(sk(x)))))
    root = E.add_fold(Fold(
        'root', LNode, OLS, R0.e, lambda a, x, p: z3.If(
            z3.And(z3.Not(sk(x)), OLS.is_none(a)), OLS.some(bs(x, p)), a)))
    ev = lambda k, x, b: Ev.mk(z3.IntVal(k), x, b)
    events = E.add_fold(Fold(
        'steps', LNode, Evs, Evs.nil, lambda a, x, p: z3.If(
            sk(x), a, z3.If(
                OLS.is_none(root(p)),
                Evs.rawsnoc(a, ev(1, x, bs(x, p))),
                Evs.rawsnoc(Evs.rawsnoc(a, ev(1, x, bs(x, p))),
                            ev(2, x, bs(x, p)))))))
    allok = E.add_fold(Fold('all well formed', LNode, TBool, T,
                            lambda a, x, p: z3.And(a, z3.Or(
                                sk(x), okset(x)))))

    def filled(x, p):
        # contract of parse_branches: the weights sum to 1, so there are
        # branches
        return brsof(bs(x, p)) != LBrs.nil

    def c_some(s):
        if z3.is_app(s) and s.num_args() == 2:
            p, x = s.arg(0), s.arg(1)
            E.assume(filled(x, p))
            B = brsof(bs(x, p))
            E.assume(z3.Implies(B != LBrs.nil, adds(B, fresh(p)) != empty))
        return some(s) == (fresh(s) != empty)
    lsome = E.induct('open ends are new if some set is not skipped',
                     LNodes, c_some)

    def tmpl(E, seq, L0, node):
        out = []
        if seq is not None and seq.t == LBrs:
            for n, (t, e) in L0.items():
                if t == LSet and e is not None:
                    out.append(('%s + branches' % n, lambda p, L, n=n, e=e:
                                L[n][1] == adds(p, e)))
        return out
    E.templates.append(tmpl)
    S = E.const('S', LNodes)

    def run():
        log = E.alloc(HInst(OBJECT, {
            'log': E.new_list(Sym(Evs, Evs.nil))}))
        cls = E.lookup_path('logictree.' + cname)
        t = E.alloc(HInst(cls, {
            'root_branchset': R0, 'open_ends': E.alloc(HSet(O0)),
            'filename': E.const('fn', TStr),
            'basepath': E.const('bp', TStr)}))

        def skip(E, a, k):
            E.prove('the attributes of the set', isinstance(a[1], Sym) and
                    a[1].t == ATT)
            return Sym(TBool, skipf(a[1].e))

        def parse_branchset(E, a, k):
            n = E.z(a[1], LNode)
            E.prove('the same depth', E.eq(a[2], D))
            E.prove('the validation asked for', E.eq(a[4], validate))
            if not E.branch(okset(n)):
                raise_validation(E, a[1])
            return Sym(LSt, bsf(n, D.e, E.z(a[3], TInt)))

        def parse_branches(E, a, k):
            E.prove('the validation asked for.', E.eq(a[3], validate))
            E.setattr(a[2], 'filled', True)
            E.call(E.getattr(E.getattr(log, 'log'), 'append'), [
                Sym(Ev, ev(1, E.z(a[1], LNode), E.z(a[2], LSt)))])

        def apply(E, a, k):
            E.prove('the open branches are those of the level before',
                    z3.Select(E.z(E.getattr(t, 'open_ends'), LSet), b0) ==
                    z3.Select(O0.e, b0))
            E.prove('attached with its branches', E.getattr(a[2], 'filled'))
            E.call(E.getattr(E.getattr(log, 'log'), 'append'), [
                Sym(Ev, ev(2, E.z(a[1], LNode), E.z(a[2], LSt)))])
        for c in ('BaseLogicTree', cname):
            for n, f in [('skip_branchset_condition', skip),
                         ('parse_branchset', parse_branchset),
                         ('parse_branches', parse_branches),
                         ('apply_branchset', apply)]:
                E.contracts['logictree.%s.%s' % (c, n)] = f

        def findall(E, o, a, k):
            E.prove('the sets of the level',
                    a[0] == nsurl('logicTreeBranchSet'))
            return E.new_list(S)
        node = E.const('level', TObj('LevelNode', attrs={
            'sourceline': TInt}, meths={'findall': findall}))
        E.assume(lsome(S.e))
        _, exc = attempt(E, lambda: E.call(
            E.getattr(t, 'parse_branchinglevel'), [node, D, validate]))
        if exc is not None:
            E.prove('refused by the parser of a set',
                    z3.And(is_validation(E, exc), z3.Not(allok(S.e))))
            reach(E, 'refused')
            return
        E.prove('no refusal is lost', allok(S.e))
        E.prove('each set not skipped is filled and then attached, once, '
                'in order', E.z(E.getattr(log, 'log'), Evs) == events(S.e))
        E.prove('the first set of all is the root',
                E.z(E.getattr(t, 'root_branchset'), OLS) == root(S.e))
        O1 = E.z(E.getattr(t, 'open_ends'), LSet)
        E.prove('the open branches are those of the sets of this level, or '
                'the same as before if all are skipped',
                z3.Select(O1, b0) == z3.If(some(S.e), z3.Select(
                    fresh(S.e), b0), z3.Select(O0.e, b0)))
        reach(E, 'end')
    return run


def t_parse_tree(E, cname, validate):
    """every level is parsed, in order, with its depth; the whole tree is
    validated at the end if asked"""
    VNode = TObj('VNode')
    Vs = TSeq(VNode)
    Ev = TTup(VNode, TInt)
    Evs = TSeq(Ev)
    S = E.const('S', Vs)
    okl = z3.Function('well formed', VNode.sort(), z3.BoolSort())
    events = E.add_fold(Fold('levels', VNode, Evs, Evs.nil,
                             lambda a, x, p: Evs.rawsnoc(a, Ev.mk(
                                 x, E.len(Vs, p)))))
    allok = E.add_fold(Fold('all well formed', VNode, TBool, T,
                            lambda a, x, p: z3.And(a, okl(x))))

    def run():
        t = E.alloc(HInst(E.lookup_path('logictree.' + cname), {
            'root_branchset': E.const('root', BS)}))
        log = E.new_list(Sym(Evs, Evs.nil))
        done = []

        def level(E, a, k):
            E.prove('the validation asked for', E.eq(a[3], validate))
            if not E.branch(okl(E.z(a[1], VNode))):
                raise_validation2(E)
            E.call(E.getattr(log, 'append'), [Sym(Ev, Ev.mk(
                E.z(a[1], VNode), E.z(a[2], TInt)))])

        def validate_tree(E, a, k):
            E.prove('the tree and its root', a[1] == node and E.eq(
                a[2], E.getattr(t, 'root_branchset')))
            E.prove('validated after all its levels',
                    E.z(log, Evs) == events(S.e))
            done.append(1)
        for c in ('BaseLogicTree', cname):
            E.contracts['logictree.%s.parse_branchinglevel' % c] = level
            E.contracts['logictree.%s.validate_tree' % c] = validate_tree

        def findall(E, o, a, k):
            E.prove('the levels of the tree',
                    a[0] == nsurl('logicTreeBranchingLevel'))
            return E.new_list(S)
        node = E.const('tree', TObj('TreeNode', meths={'findall': findall}))
        _, exc = attempt(E, lambda: E.call(
            E.getattr(t, 'parse_tree'), [node, validate]))
        if exc is not None:
            E.prove('refused by the parser of a level',
                    z3.And(is_validation(E, exc), z3.Not(allok(S.e))))
            return
        E.prove('no refusal is lost', allok(S.e))
        E.prove('the levels in order with their depth',
                E.z(log, Evs) == events(S.e))
        E.prove('the tree is validated once, if asked',
                len(done) == (1 if validate else 0))
        reach(E, 'end')
    return run


def raise_validation2(E):
    cls = E.lookup_path('logictree.ValidationError')
    raise PyExc(E.mkexc(cls, ('invalid',)))


def t_skip(E):
    """a set is skipped iff its region type is not one of those given"""
    KS = TSet(TStr)
    known = E.const('known', KS)
    v = E.const('trt', TStr)

    def run():
        t = E.alloc(HInst(E.lookup_path('logictree.GMPELogicTree'), {
            'tectonic_region_types': E.alloc(HSet(known))}))
        there = E.choose(2)
        d = {'branchSetID': 'x', 'uncertaintyType': 'gmpeModel'}
        if there:
            d['applyToTectonicRegionType'] = v
        r, exc = attempt(E, lambda: E.call(
            E.getattr(t, 'skip_branchset_condition'),
            [E.alloc(HDict(d))]))
        E.prove('never fails', exc is None)
        if exc is None:
            E.prove('skipped iff its region type is not known', E.truth_e(
                r) == (z3.Not(z3.Select(known.e, v.e)) if there else F))
        b = make_tree(E)
        E.prove('nothing is skipped in other trees', E.call(E.getattr(
            b, 'skip_branchset_condition'), [E.alloc(HDict(d))]) is False)
        reach(E, 'end')
    return run


# -------------------------------------------------------- uncertainties
KINDS = ['PointSource', 'AreaSource', 'SimpleFaultSource',
         'ComplexFaultSource', 'CharacteristicFaultSource', 'another']
TYPE_OF = ['point', 'area', 'simpleFault', 'complexFault',
           'characteristicFault']


def t_uncertainty(E, direct):
    """apply_uncertainty: exactly the modification of the type, exactly
    when the source passes the filters and its distribution is a truncated
    Gutenberg-Richter"""
    gr = z3.Bool('is a truncated GR')
    kind = E.const('kind', TInt)
    E.assume(z3.And(kind.e >= 0, kind.e < len(KINDS)))
    SRC = 'openquake.hazardlib.source.'

    def src_isinstance(E, o, cls):
        if isinstance(cls, ExtV) and cls.dotted.startswith(SRC):
            n = cls.dotted[len(SRC):]
            if n == 'PointSource':      # an area source is a point source
                return z3.Or(kind.e == 0, kind.e == 1)
            if n in KINDS[:-1]:
                return kind.e == KINDS.index(n)

    def mfd_isinstance(E, o, cls):
        if isinstance(cls, ExtV) and cls.dotted == \
                'openquake.hazardlib.mfd.TruncatedGRMFD':
            return gr
    log = []

    def modify(E, o, a, k):
        log.append((a, k))
    MFD = TObj('MFD', meths={'modify': modify},
               hooks={'isinstance': mfd_isinstance})
    Src = TObj('Src', attrs={'tectonic_region_type': TStr,
                             'source_id': TStr, 'mfd': MFD},
               hooks={'isinstance': src_isinstance})
    src = E.const('src', Src)
    trt, stype = E.const('trt', TStr), E.const('stype', TStr)
    ids = E.const('ids', Strs)
    vals = [E.const('v0', TReal), E.const('v1', TReal)]
    other = E.const('utype', TStr)
    MODS = {'abGRAbsolute': ('set_ab', {'a_val': vals[0], 'b_val': vals[1]}),
            'bGRRelative': ('increment_b', {'value': vals[0]}),
            'maxMagGRRelative': ('increment_max_mag', {'value': vals[0]}),
            'maxMagGRAbsolute': ('set_max_mag', {'value': vals[0]})}

    def run():
        del log[:]
        d, passes = {}, T
        if E.choose(2):
            d['applyToTectonicRegionType'] = trt
            passes = z3.And(passes, Src.attrfn('tectonic_region_type')(
                src.e) == trt.e)
        if E.choose(2):
            d['applyToSourceType'] = stype
            # one of the types of sources a tree may name
            E.assume(z3.Or(*[stype.e == z3.StringVal(n) for n in TYPE_OF]))
            passes = z3.And(passes, z3.Or(*[
                z3.And(stype.e == z3.StringVal(n), kind.e == i)
                for i, n in enumerate(TYPE_OF)]))
        if E.choose(2):
            d['applyToSources'] = E.new_list(ids)
            passes = z3.And(passes, E.memfold(Strs)(
                ids.e, Src.attrfn('source_id')(src.e)))
        if direct:
            u = 'x'
        else:
            i = E.choose(5)
            u = sorted(MODS)[i] if i < 4 else other
            if i == 4:
                E.assume(z3.And(*[other.e != z3.StringVal(n)
                                  for n in MODS]))
        filters = E.alloc(HDict(d))
        bs = E.call(E.lookup_path('logictree.BranchSet'), [u, filters])
        if direct:
            r = E.call(E.getattr(bs, 'filter_source'), [src])
            E.prove('the source passes exactly if it passes every filter',
                    E.truth_e(r) == passes)
            reach(E, 'end')
            return
        v = tuple(vals) if u == 'abGRAbsolute' else vals[0]
        _, exc = attempt(E, lambda: E.call(
            E.getattr(bs, 'apply_uncertainty'), [v, src]))
        if u is other:
            E.prove('another type is not applied', len(log) == 0)
            if exc is None:
                E.prove('another type is an error',
                        z3.Not(z3.And(passes, gr)))
            return
        E.prove('no error', exc is None)
        if not log:
            E.prove('applied when the source passes',
                    z3.Not(z3.And(passes, gr)))
            reach(E, 'not applied')
            return
        E.prove('applied only when the source passes', z3.And(passes, gr))
        a, k = log[0]
        a = list(a) + [k[n] for n in ('modification', 'parameters')[len(a):]
                       if n in k]
        E.prove('one modification', len(log) == 1 and len(a) == 2)
        op, params = MODS[u]
        E.prove('the modification of the type', a[0] == op)
        got = E.h(a[1]).d
        E.prove('its parameters', got is not None and
                sorted(got) == sorted(params))
        for n in params:
            E.prove('the value of the branch', E.eq(got[n], params[n]))
        E.prove('the filters are unchanged', E.h(filters).d == d)
        reach(E, 'applied')
    return run


def t_by_id(E):
    """get_branch_by_id: the first branch with the identifier"""
    S = E.const('S', Brs)
    i = E.const('id', TStr)
    first = E.add_fold(Fold('with the id', Br, OBr, OBr.none,
                            lambda a, b, p: z3.If(z3.And(
                                OBr.is_none(a), bid(b) == i.e),
                                OBr.some(b), a)))
    none = E.add_fold(Fold('none with the id', Br, TBool, T,
                           lambda a, b, p: z3.And(a, bid(b) != i.e)))
    l1 = E.induct('none', Brs, lambda s: none(s) == OBr.is_none(first(s)))
    l2 = E.induct('found', Brs, lambda s: z3.Or(
        OBr.is_none(first(s)), bid(OBr.val(first(s))) == i.e))
    r = z3.Const('head', Brs.sort())
    E.induct('the first stays', Brs, lambda s: z3.Implies(
        z3.Not(OBr.is_none(first(r))),
        first(E.cat(Brs, r, s)) == first(r)))

    def at(E, seq, p, b, rest):
        if seq.t == Brs:
            for f in (l1, l2):
                E.assume(f(p))
                E.assume(f(seq.e))
            px = Brs.rawsnoc(p, b)
            E.assume(z3.Implies(z3.Not(OBr.is_none(first(px))),
                                first(seq.e) == first(px)))
    E.split_hooks.append(at)

    def run():
        E.assume(l1(S.e))
        bs = branchset(E, S)
        r, exc = attempt(E, lambda: E.call(E.getattr(
            bs, 'get_branch_by_id'), [i]))
        if exc is not None:
            E.prove('an error only if there is none', none(S.e))
            return
        E.prove('the branch with the identifier',
                first(S.e) == OBr.some(E.z(r, Br)))
        reach(E, 'end')
    return run


def follow(E, Ucs, none, step, fresh=None, same=lambda a, b: a == b):
    """The folds of a walk down from the root by identifiers (the branch set
    reached, whether the leaf comes last, what was met: step(acc, branch
    set, branch)) and the invariant templates of a loop doing it, whether it
    takes the identifiers from the front or from the end of the reversed
    list"""
    byid = z3.Function('by id', BS.sort(), z3.StringSort(), Br.sort())
    ROOT = E.const('root', BS)
    OB = OBS
    cur = E.add_fold(Fold('current', TStr, OB, OB.some(ROOT.e),
                          lambda a, i, p: child(byid(OB.val(a), i))))
    alive = E.add_fold(Fold('before the leaf', TStr, TBool, T,
                            lambda a, i, p: z3.And(
                                a, z3.Not(OB.is_none(cur(p))))))
    met = E.add_fold(Fold(
        'met', TStr, Ucs, none, lambda a, i, p: step(
            a, OB.val(cur(p)), byid(OB.val(cur(p)), i))))
    met.fresh = new = None
    if fresh is not None:
        met.fresh = new = E.add_fold(Fold(
            'all new', TStr, TBool, T, lambda a, i, p: z3.And(
                a, fresh(met(p), OB.val(cur(p))))))
    X0 = z3.Const('X0', Strs.sort())
    E.induct('the leaf is last', Strs, lambda y: z3.Implies(
        alive(E.cat(Strs, X0, y)), alive(X0)))
    if new is not None:
        E.induct('once repeated, always repeated', Strs, lambda y: z3.Implies(
            new(E.cat(Strs, X0, y)), new(X0)))
    rev = E.revfold(Strs)
    one = lambda x: Strs.rawsnoc(Strs.nil, x)
    i0 = z3.Const('i0', z3.StringSort())
    IDS = E.const('ids', Strs)

    def c_one(s):
        if z3.is_app(s) and s.num_args() == 2:
            p, x = s.arg(0), s.arg(1)       # definition of ++
            E.assume(Strs.catfn()(one(x), Strs.rawsnoc(rev(p), i0)) ==
                     Strs.rawsnoc(E.cat(Strs, one(x), rev(p)), i0))
        return rev(E.cat(Strs, one(i0), s)) == Strs.rawsnoc(rev(s), i0)
    E.induct('reversing puts the first last', Strs, c_one)

    def c_rev(s):
        if z3.is_app(s) and s.num_args() == 2:
            p, x = s.arg(0), s.arg(1)
            E.assume(rev(E.cat(Strs, one(x), rev(p))) ==
                     Strs.rawsnoc(rev(rev(p)), x))
        return rev(rev(s)) == s
    revrev = E.induct('reversed twice', Strs, c_rev)

    def prefix(z, u):
        for f in (alive, new):
            if f is not None:
                E.assume(z3.Implies(f(z), f(u)))

    def tmpl(E, seq, L0, node):
        out = []
        if seq is not None and seq.t == Strs:
            for n, (t, e) in L0.items():
                if t == OB:
                    out.append(('%s is current' % n, lambda p, L, n=n:
                                L[n][1] == cur(p)))
                if t == Ucs:
                    out.append(('%s is met' % n, lambda p, L, n=n:
                                same(L[n][1], met(p))))
            if new is not None:
                out.append(('nothing met twice', lambda p, L: new(p)))
            return out
        if seq is not None:
            return out
        I = [n for n, (t, e) in L0.items() if t == Strs]
        B = [n for n, (t, e) in L0.items() if t == OB]
        U = [n for n, (t, e) in L0.items() if t == Ucs]
        N = [n for n, (t, e) in L0.items() if t == TInt]
        for u in I:
            out += [('%s is below %s' % (b, u), lambda p, L, u=u, b=b:
                     L[b][1] == cur(L[u][1])) for b in B]
            out += [('%s is met on %s' % (m, u), lambda p, L, u=u, m=m:
                     same(L[m][1], met(L[u][1]))) for m in U]
            if new is not None:
                out.append(('nothing met twice on %s' % u,
                            lambda p, L, u=u: new(L[u][1])))
            for q in I:
                if q == u:
                    continue

                def whole(p, L, u=u, q=q):
                    used, f = L[u][1], L[q][1]
                    z = E.cat(Strs, used, rev(f))
                    E.assume(z3.Implies(f == Strs.nil, rev(f) == Strs.nil))
                    E.assume(revrev(IDS.e))
                    x, f2 = Strs.last(f), Strs.init(f)
                    z2 = E.cat(Strs, Strs.rawsnoc(used, x), rev(f2))
                    E.assume(z3.Implies(f != Strs.nil, z3.And(
                        f == Strs.rawsnoc(f2, x), z == z2)))
                    prefix(z2, Strs.rawsnoc(used, x))
                    return z == IDS.e
                out.append(('%s ++ reversed %s' % (u, q), whole))
                out.append(('%s is empty at the leaf %s' % (q, u),
                            lambda p, L, u=u, q=q, w=whole: (
                                w(p, L) is not None) and (
                                L[q][1] == Strs.nil) == OB.is_none(
                                    cur(L[u][1]))))
                # taken from the front of the rest

                def front(p, L, u=u, q=q):
                    used, f = L[u][1], L[q][1]
                    x, f2 = E.headfold(Strs)(f), E.tailfn(Strs)(f)
                    z = E.cat(Strs, used, f)
                    z2 = Strs.catfn()(Strs.rawsnoc(used, x), f2)
                    E.assume(z3.Implies(f != Strs.nil, z == z2))
                    prefix(z2, Strs.rawsnoc(used, x))
                    E.assume(z3.Implies(f == Strs.nil, z == used))
                    if E.cat(Strs, used, f).eq(used):
                        return used == IDS.e
                    return z == IDS.e
                out.append(('%s ++ %s' % (u, q), front))
                out.append(('nothing left in %s at the leaf %s' % (q, u),
                            lambda p, L, u=u, q=q, w=front: (
                                w(p, L) is not None) and (
                                L[q][1] == Strs.nil) == OB.is_none(
                                    cur(L[u][1]))))
        return out
    E.templates.append(tmpl)
    return ROOT, IDS, byid, cur, alive, met


def t_walk(E):
    """make_apply_uncertainties(ids): the branch sets and values met on the
    path, in order from the root, without the source models"""
    utype = BS.attrfn('uncertainty_type')
    Uc = TTup(BS, Val)
    Ucs = TSeq(Uc)
    OB = OBS
    ROOT, IDS, byid, cur, alive, met = follow(
        E, Ucs, Ucs.nil, lambda a, bs, b: z3.If(
            utype(bs) == z3.StringVal('sourceModel'), a,
            Ucs.rawsnoc(a, Uc.mk(bs, value(b)))))

    def run():
        E.assume(alive(IDS.e))
        E.assume(OB.is_none(cur(IDS.e)))
        # ids is not empty: there is a root
        ghost = E.alloc(HInst(OBJECT, {
            'used': E.new_list(Sym(Strs, Strs.nil)),
            'done': E.new_list(Sym(Ucs, Ucs.nil))}))

        def get(E, o, a, k):
            i = E.z(a[0], TStr)
            E.prove('looked up in the branch set reached', cur(
                E.z(E.getattr(ghost, 'used'), Strs)) == OB.some(o.e))
            E.call(E.getattr(E.getattr(ghost, 'used'), 'append'), [a[0]])
            return Sym(Br, byid(o.e, i))
        BS.meths['get_branch_by_id'] = get

        def apply(E, o, a, k):
            E.prove('applied to the source given', a[1] == 'the source')
            E.call(E.getattr(E.getattr(ghost, 'done'), 'append'), [
                Sym(Uc, Uc.mk(o.e, E.z(a[0], Val)))])
        BS.meths['apply_uncertainty'] = apply
        given = E.new_list(IDS)
        t = make_tree(E, root_branchset=Sym(BS, ROOT.e))
        f = E.call(E.getattr(t, 'make_apply_uncertainties'), [given])
        E.prove('the whole path is followed', E.z(
            E.getattr(ghost, 'used'), Strs) == IDS.e)
        E.prove('the path given is unchanged', E.z(given, Strs) == IDS.e)
        E.prove('nothing is applied yet',
                E.z(E.getattr(ghost, 'done'), Ucs) == Ucs.nil)
        E.call(f, ['the source'])
        E.prove('the uncertainties of the path, in order, once', E.z(
            E.getattr(ghost, 'done'), Ucs) == met(IDS.e))
        E.setattr(ghost, 'done', E.new_list(Sym(Ucs, Ucs.nil)))
        E.call(f, ['the source'])
        E.prove('and again for the next source', E.z(
            E.getattr(ghost, 'done'), Ucs) == met(IDS.e))
        reach(E, 'end')
    return run


def t_trt_gsim(E):
    """make_trt_to_gsim(ids): the model of each region type met on the path;
    a region type met twice is refused"""
    FM = TMap(TStr, TStr)
    BS.attrs['filters'] = FM
    key = sv('applyToTectonicRegionType')
    filters = BS.attrfn('filters')
    trt = lambda bs: z3.Select(FM.val(filters(bs)), key)
    M = TMap(TStr, Val)
    E.value_types[TStr] = Val
    k = E.const('k', TStr)
    OB = OBS
    none = M.mk(z3.K(z3.StringSort(), F), z3.Const('nothing', z3.ArraySort(
        z3.StringSort(), Val.sort())))
    ROOT, IDS, byid, cur, alive, met = follow(
        E, M, none, lambda a, bs, b: M.mk(
            z3.Store(M.has(a), trt(bs), T),
            z3.Store(M.val(a), trt(bs), value(b))),
        lambda a, bs: z3.Not(z3.Select(M.has(a), trt(bs))),
        lambda a, b: z3.And(M.has(a) == M.has(b), z3.Implies(
            z3.Select(M.has(a), k.e),
            z3.Select(M.val(a), k.e) == z3.Select(M.val(b), k.e))))
    new = met.fresh
    E.templates.append(lambda E, seq, L0, node: [
        ('%s has a region type' % n, lambda p, L, n=n: z3.Or(
            OB.is_none(L[n][1]),
            z3.Select(FM.has(filters(OB.val(L[n][1]))), key)))
        for n, (t, e) in L0.items() if t == OB])

    def run():
        E.assume(alive(IDS.e))
        E.assume(OB.is_none(cur(IDS.e)))
        fine = E.branch(new(IDS.e))
        ghost = E.alloc(HInst(OBJECT, {
            'used': E.new_list(Sym(Strs, Strs.nil))}))

        def get(E, o, a, k):
            i = E.z(a[0], TStr)
            E.prove('looked up in the branch set reached', cur(
                E.z(E.getattr(ghost, 'used'), Strs)) == OB.some(o.e))
            E.call(E.getattr(E.getattr(ghost, 'used'), 'append'), [a[0]])
            b = byid(o.e, i)
            has_type(o.e)
            has_type(OB.val(child(b)))
            return Sym(Br, b)
        BS.meths['get_branch_by_id'] = get

        def has_type(bs):       # a branch set of models has a region type
            E.assume(z3.Select(FM.has(filters(bs)), key))
        has_type(ROOT.e)
        given = E.new_list(IDS)
        t = E.alloc(HInst(E.lookup_path('logictree.GMPELogicTree'), {
            'root_branchset': Sym(BS, ROOT.e)}))
        r, exc = attempt(E, lambda: E.call(E.getattr(
            t, 'make_trt_to_gsim'), [given]))
        if exc is not None:
            E.prove('a path is refused only if a region type is met twice',
                    not fine)
            reach(E, 'refused')
            return
        E.prove('a region type met twice is refused', fine)
        E.prove('the path given is unchanged', E.z(given, Strs) == IDS.e)
        E.prove('the whole path is followed', E.z(
            E.getattr(ghost, 'used'), Strs) == IDS.e)
        m = E.z(r, M)
        E.prove('the region types are those met on the path',
                z3.Select(M.has(m), k.e) == z3.Select(M.has(met(IDS.e)), k.e))
        E.prove('with the model chosen for each', z3.Implies(
            z3.Select(M.has(m), k.e), z3.Select(M.val(m), k.e) ==
            z3.Select(M.val(met(IDS.e)), k.e)))
        reach(E, 'end')
    return run


# ------------------------------------------------------------- validation
KS = TSet(TStr)
ABSOLUTE = ('abGRAbsolute', 'maxMagGRAbsolute')
FILTERS = ('applyToTectonicRegionType', 'applyToSources',
           'applyToSourceType')


def sv(x):
    return z3.StringVal(x)


def tree(E, cname, **kw):
    kw.setdefault('filename', Sym(TStr, z3.Const('fn', TStr.sort())))
    kw.setdefault('basepath', Sym(TStr, z3.Const('bp', TStr.sort())))
    return E.alloc(HInst(E.lookup_path('logictree.' + cname), kw))


def xnode(E, name='node'):
    return E.const(name, TObj('XNode', attrs={'sourceline': TInt}))


def judged(E, fn, good, what):
    """fn() raises a ValidationError iff not good"""
    r, exc = attempt(E, fn)
    if exc is not None:
        E.prove('%s: a refusal is a ValidationError' % what,
                is_validation(E, exc))
        E.prove('%s: nothing well formed is refused' % what, z3.Not(good))
        reach(E, 'refused')
        return False, None
    E.prove('%s: nothing ill formed is accepted' % what, good)
    reach(E, 'accepted')
    return True, r


def t_sm_filters(E):
    u = E.const('utype', TStr)
    vals = dict((n, E.const(n, TStr)) for n in FILTERS)
    trts, stypes, sids = [E.const(n, KS) for n in
                          ('known_trts', 'known_types', 'known_ids')]
    known = E.add_fold(Fold('all known', TStr, TBool, T, lambda a, i, p:
                            z3.And(a, z3.Select(sids.e, i))))
    ids = splitf(vals['applyToSources'].e)
    E.reg(Strs, ids)
    E.const('unused', Strs)

    def run():
        d = {}
        for n in FILTERS:
            if E.choose(2):
                d[n] = vals[n]
        good = T
        if d:
            good = u.e != sv('sourceModel')
        if len(d) > 1:
            good = F
        if 'applyToTectonicRegionType' in d:
            good = z3.And(good, z3.Select(
                trts.e, vals['applyToTectonicRegionType'].e))
        if 'applyToSourceType' in d:
            good = z3.And(good, z3.Select(
                stypes.e, vals['applyToSourceType'].e))
        one = F
        if 'applyToSources' in d:
            good = z3.And(good, known(ids))
            if len(d) == 1:
                one = E.len(Strs, ids) == 1
        good = z3.And(good, z3.Or(one, z3.And(*[
            u.e != sv(n) for n in ABSOLUTE])))
        filters = E.alloc(HDict(d))
        t = tree(E, 'SourceModelLogicTree',
                 tectonic_region_types=E.alloc(HSet(trts)),
                 source_types=E.alloc(HSet(stypes)),
                 source_ids=E.alloc(HSet(sids)))
        judged(E, lambda: E.call(E.getattr(t, 'validate_filters'),
                                 [xnode(E), u, filters]), good, 'filters')
        E.prove('the filters are unchanged', E.h(filters).d == d)
    return run


def t_sm_branchset(E):
    u = E.const('utype', TStr)
    depth, number = E.const('depth', TInt), E.const('number', TInt)

    def run():
        E.assume(z3.And(depth.e >= 0, number.e >= 0))
        bs = branchset(E, Sym(Brs, Brs.nil), utype=u)
        t = tree(E, 'SourceModelLogicTree')
        sm, gm = u.e == sv('sourceModel'), u.e == sv('gmpeModel')
        judged(E, lambda: E.call(E.getattr(t, 'validate_branchset'), [
            xnode(E), depth, number, bs]), z3.If(
                depth.e == 0, z3.And(number.e == 0, sm),
                z3.And(z3.Not(sm), z3.Not(gm))), 'branch set')
    return run


# a line end after the number is stripped before, or is no harm
NUMBER = r'[-+]?([0-9]*\.)?[0-9]+$'


def t_sm_value(E):
    """a pair of numbers for absolute a and b values, a file for source
    models, one number for the rest"""
    v = E.const('value', TStr)
    u = E.const('utype', TStr)
    split = z3.Function('str_split_', z3.StringSort(), Strs.sort())
    num = language(E, NUMBER)

    def run():
        seen = []
        bs = branchset(E, Sym(Brs, Brs.nil), utype=u)
        t = tree(E, 'SourceModelLogicTree')

        def collect(E, a, k):
            seen.append(a[1])
        E.contracts['logictree.SourceModelLogicTree.'
                    'collect_source_model_data'] = collect
        words = split(v.e)
        E.reg(Strs, words)
        a, b = Strs.last(Strs.init(words)), Strs.last(words)
        two = words == Strs.rawsnoc(Strs.rawsnoc(Strs.nil, a), b)
        E.assume((E.len(Strs, words) == 2) == two)
        nth = E.nthfold(Strs)
        for k, w in enumerate((a, b)):
            E.assume(z3.Implies(two, nth(words, z3.IntVal(k)) == w))
        pair = z3.And(two, z3.InRe(a, num), z3.InRe(b, num))
        i = E.choose(3)
        if i == 1:
            pair = z3.BoolVal(bool(E.branch(two)) and
                              bool(E.branch(z3.InRe(a, num))) and
                              bool(E.branch(z3.InRe(b, num))))
        E.assume([u.e == sv('sourceModel'), u.e == sv('abGRAbsolute'),
                  z3.And(u.e != sv('sourceModel'),
                         u.e != sv('abGRAbsolute'))][i])
        good = [T, pair, z3.InRe(v.e, num)][i]
        ok, _ = judged(E, lambda: E.call(E.getattr(
            t, 'validate_uncertainty_value'), [xnode(E), bs, v]), good,
            'value')
        if ok:
            E.prove('the source models are read, and nothing else',
                    (u.e == sv('sourceModel')) == (len(seen) == 1))
            for x in seen:
                E.prove('the file named', E.eq(x, v))
    return run


def t_sm_parse_value(E):
    """source model names are kept, other values are the numbers written"""
    v = E.const('value', TStr)
    u = E.const('utype', TStr)
    ok = z3.Function('float_ok', z3.StringSort(), z3.BoolSort())
    num = z3.Function('float_of', z3.StringSort(), z3.RealSort())

    def run():
        bs = branchset(E, Sym(Brs, Brs.nil), utype=u)
        t = tree(E, 'SourceModelLogicTree')
        words = splitf(v.e)
        E.reg(Strs, words)
        E.assume(stripf(v.e) == v.e)
        a, b = [E.const('w%d' % i, TStr) for i in range(2)]
        for w in (a.e, b.e, v.e):
            E.assume(ok(w))             # validated
        if E.branch(u.e == sv('abGRAbsolute')):
            E.assume(words == Strs.rawsnoc(Strs.rawsnoc(Strs.nil, a.e), b.e))
            nth = E.nthfold(Strs)
            for k, w in enumerate((a, b)):
                E.assume(nth(words, k) == w.e)
        r = E.call(E.getattr(t, 'parse_uncertainty_value'),
                   [xnode(E), bs, v])
        if isinstance(r, Sym) and r.t == TStr:
            E.prove('a source model keeps its name', z3.And(
                u.e == sv('sourceModel'), r.e == v.e))
            reach(E, 'name')
        elif isinstance(r, Sym):
            E.prove('a number', z3.And(
                u.e != sv('sourceModel'), u.e != sv('abGRAbsolute'),
                E.z(r, TReal) == num(v.e)))
            reach(E, 'number')
        else:
            c = E.content(r)
            E.prove('a pair', len(c) == 2)
            E.prove('the two numbers in order', z3.And(
                u.e == sv('abGRAbsolute'), E.z(c[0], TReal) == num(a.e),
                E.z(c[1], TReal) == num(b.e)))
            reach(E, 'pair')
    return run


def t_sm_parse_filters(E):
    """the identifiers are split, the other filters kept"""
    vals = dict((n, E.const(n, TStr)) for n in FILTERS)

    def run():
        d = {}
        for n in FILTERS:
            if E.choose(2):
                d[n] = vals[n]
        t = tree(E, 'SourceModelLogicTree')
        r = E.call(E.getattr(t, 'parse_filters'),
                   [xnode(E), E.const('u', TStr), E.alloc(HDict(dict(d)))])
        got = E.h(r).d
        E.prove('the same filters', got is not None and
                sorted(got) == sorted(d))
        for n in d:
            if n == 'applyToSources':
                E.prove('the words of the filter', E.z(got[n], Strs) ==
                        splitf(vals[n].e))
            else:
                E.prove('the value of the filter', E.eq(got[n], vals[n]))
        reach(E, 'end')
    return run


def gsims(E):
    """the ground motion models known to hazardlib"""
    G = E.const('GSIM', TMap(TStr, Val))
    E.externals['openquake.hazardlib.gsim.get_available_gsims'] = \
        lambda E, a, k: sym_dict(E, G)
    E.modules.pop('openquake.commonlib.logictree', None)
    E.lookup_path('logictree.GMPELogicTree')
    return G


def t_gm_filters(E):
    u = E.const('utype', TStr)
    vals = dict((n, E.const(n, TStr)) for n in FILTERS)
    known, defined = E.const('known', KS), E.const('defined', KS)
    k0 = z3.Const('k0', z3.StringSort())
    trt = vals['applyToTectonicRegionType'].e

    def run():
        d = {}
        for n in FILTERS:
            if E.choose(2):
                d[n] = vals[n]
        good = F
        if list(d) == ['applyToTectonicRegionType']:
            good = z3.And(z3.Select(known.e, trt),
                          z3.Not(z3.Select(defined.e, trt)))
        t = tree(E, 'GMPELogicTree',
                 tectonic_region_types=E.alloc(HSet(known)),
                 defined_tectonic_region_types=E.alloc(HSet(defined)))
        ok, _ = judged(E, lambda: E.call(E.getattr(t, 'validate_filters'), [
            xnode(E), u, E.alloc(HDict(d))]), good, 'filters')
        now = E.z(E.getattr(t, 'defined_tectonic_region_types'), KS)
        if ok:
            E.prove('the region type is now defined', z3.Select(now, k0) ==
                    z3.Or(z3.Select(defined.e, k0), k0 == trt))
        E.prove('the known region types are the same', z3.Select(E.z(
            E.getattr(t, 'tectonic_region_types'), KS), k0) ==
            z3.Select(known.e, k0))
    return run


def t_gm_branchset(E):
    u = E.const('utype', TStr)
    depth, number = E.const('depth', TInt), E.const('number', TInt)

    def run():
        E.assume(z3.And(depth.e >= 0, number.e >= 0))
        bs = branchset(E, Sym(Brs, Brs.nil), utype=u)
        t = tree(E, 'GMPELogicTree')
        judged(E, lambda: E.call(E.getattr(t, 'validate_branchset'), [
            xnode(E), depth, number, bs]), z3.And(
                number.e == 0, u.e == sv('gmpeModel')), 'branch set')
    return run


def t_gm_value(E):
    G = gsims(E)
    v = E.const('value', TStr)

    def run():
        bs = branchset(E, Sym(Brs, Brs.nil), utype='gmpeModel')
        t = tree(E, 'GMPELogicTree')
        has = z3.Select(TMap(TStr, Val).has(G.e), v.e)
        ok, _ = judged(E, lambda: E.call(E.getattr(
            t, 'validate_uncertainty_value'), [xnode(E), bs, v]), has,
            'ground motion model')
        if not ok:
            return
        r = E.call(E.getattr(t, 'parse_uncertainty_value'),
                   [xnode(E), bs, v])
        E.prove('the class of that name', E.z(r, Val) == z3.Select(
            TMap(TStr, Val).val(G.e), v.e))
        d = E.alloc(HDict({'applyToTectonicRegionType': v}))
        r = E.call(E.getattr(t, 'parse_filters'), [xnode(E), 'x', d])
        E.prove('the filters are kept', E.h(r).d == {
            'applyToTectonicRegionType': v})
    return run


def t_gm_tree(E):
    known, defined = E.const('known', KS), E.const('defined', KS)
    k0 = z3.Const('k0', z3.StringSort())
    w = z3.Const('witness', z3.StringSort())

    def run():
        t = tree(E, 'GMPELogicTree',
                 tectonic_region_types=E.alloc(HSet(known)),
                 defined_tectonic_region_types=E.alloc(HSet(defined)))
        r, exc = attempt(E, lambda: E.call(E.getattr(t, 'validate_tree'), [
            xnode(E), E.const('root', BS)]))
        kk = z3.Const('kk', z3.StringSort())
        missing = z3.Exists([kk], z3.And(z3.Select(known.e, kk), z3.Not(
            z3.Select(defined.e, kk))))
        if exc is not None:
            E.prove('a refusal is a ValidationError', is_validation(E, exc))
            E.prove('refused only if a region type is missing', missing)
            reach(E, 'refused')
            return
        E.prove('accepted only if every region type is defined', z3.Implies(
            z3.Select(known.e, k0), z3.Select(defined.e, k0)))
        reach(E, 'accepted')
    return run


def t_parse_branchset(E, cname, validate):
    """parse_branchset: the type and the filters of the document, validated
    first if asked"""
    u = E.const('utype', TStr)
    vals = dict((n, E.const(n, TStr)) for n in FILTERS)
    depth, number = E.const('depth', TInt), E.const('number', TInt)

    def run():
        given = {'uncertaintyType': u, 'branchSetID': 'b',
                 'applyToBranches': 'x'}
        d = {}
        for n in FILTERS:
            if E.choose(2):
                given[n] = d[n] = vals[n]
        fok, bok = bool(E.choose(2)), bool(E.choose(2))
        if not validate and not (fok and bok):
            return
        calls = []
        t = tree(E, cname)

        def get(E, o, a, k):
            return given.get(a[0], a[1] if len(a) > 1 else None)
        node = E.const('node', TObj('SetNode', attrs={
            'sourceline': TInt,
            'attrib': lambda E, o: E.alloc(HDict(dict(given)))},
            meths={'get': get}))

        def same(v):
            got = E.h(v).d
            return got is not None and sorted(got) == sorted(d) and all(
                got[n] is d[n] for n in d)

        def filters(E, a, k):
            E.prove('the type and the filters of the document', z3.And(
                E.z(a[2], TStr) == u.e, z3.BoolVal(same(a[3]))))
            calls.append('filters')
            if not fok:
                raise_validation2(E)

        def parse(E, a, k):
            E.prove('the type and the filters of the document.', z3.And(
                E.z(a[2], TStr) == u.e, z3.BoolVal(same(a[3]))))
            calls.append('parse')
            return 'the parsed filters'

        def bset(E, a, k):
            E.prove('the place of the branch set', z3.And(
                E.z(a[2], TInt) == depth.e, E.z(a[3], TInt) == number.e))
            E.prove('the branch set made', z3.And(E.z(E.getattr(
                a[4], 'uncertainty_type'), TStr) == u.e))
            calls.append('set')
            if not bok:
                raise_validation2(E)
        for c in ('BaseLogicTree', cname):
            for n, f in [('validate_filters', filters),
                         ('parse_filters', parse),
                         ('validate_branchset', bset)]:
                E.contracts['logictree.%s.%s' % (c, n)] = f
        r, exc = attempt(E, lambda: E.call(
            E.getattr(t, 'parse_branchset'),
            [node, depth, number, validate]))
        if exc is not None:
            E.prove('a refusal is that of a validator',
                    is_validation(E, exc) and not (fok and bok))
            E.prove('filters are validated before they are parsed',
                    fok or calls == ['filters'])
            reach(E, 'refused')
            return
        E.prove('no refusal is lost', bool(fok and bok))
        E.prove('each step once, validating only if asked',
                sorted(calls) == (['filters', 'parse', 'set'] if validate
                                  else ['parse']) and
                (not validate or calls[0] == 'filters'))
        E.prove('the parsed filters',
                E.getattr(r, 'filters') == 'the parsed filters')
        E.prove('the type', E.eq(E.getattr(r, 'uncertainty_type'), u))
        E.prove('no branches yet', E.content(E.getattr(
            r, 'branches')) == [])
        reach(E, 'accepted')
    return run


SOURCE_TYPES = ('point', 'area', 'complexFault', 'simpleFault',
                'characteristicFault')


def t_collect(E):
    """collect_source_model_data: the region types, kinds and identifiers of
    every source of the file are added to the known ones"""
    PNode = TObj('Parent', meths={'remove': lambda E, o, a, k: None})
    SNode = TObj('SNode', attrs={'tag': TStr, 'id': TStr, 'region': TStr})
    E.while_cut = True
    tag, sid, region = [SNode.attrfn(n) for n in ('tag', 'id', 'region')]
    Sn = TSeq(SNode)
    KEYS = {'tectonicRegion': 'region', 'id': 'id'}
    url = lambda t: sv(nsurl(t + 'Source'))
    is_src = z3.Function('is a source', SNode.sort(), z3.BoolSort())
    T0, I0, K0 = [E.const(n, KS) for n in ('trts', 'ids', 'types')]
    add = lambda a, x, k: z3.If(is_src(x), z3.Store(a, k, T), a)

    kindof = z3.Function('kind of a source', SNode.sort(), z3.StringSort())
    ft = E.add_fold(Fold('regions', SNode, KS, T0.e, lambda a, x, p: add(
        a, x, region(x))))
    fi = E.add_fold(Fold('identifiers', SNode, KS, I0.e, lambda a, x, p: add(
        a, x, sid(x))))
    fk = E.add_fold(Fold('kinds', SNode, KS, K0.e,
                         lambda a, x, p: add(a, x, kindof(x))))
    S = E.const('events', Sn)
    one = lambda x: Sn.rawsnoc(Sn.nil, x)
    P0, b0 = z3.Const('P0', Sn.sort()), z3.Const('b0', SNode.sort())
    E.induct('P ++ ([b] ++ x) = (P ++ [b]) ++ x', Sn, lambda x: E.cat(
        Sn, P0, E.cat(Sn, one(b0), x)) == E.cat(
            Sn, Sn.rawsnoc(P0, b0), x))

    def tmpl(E, seq, L0, node):
        out = []
        if seq is not None:
            return out
        Q = [n for n, (t, e) in L0.items() if t == Sn]
        K = [n for n, (t, e) in L0.items() if t == KS]
        for q in Q:
            for f in (ft, fi, fk):
                out += [('%s = %s(%s)' % (k, f.name, q),
                         lambda p, L, f=f, k=k, q=q: L[k][1] == f(L[q][1]))
                        for k in K]
            out += [('%s ++ %s' % (q, r), lambda p, L, q=q, r=r: E.cat(
                Sn, L[q][1], L[r][1]) == S.e) for r in Q if r != q]
        return out
    E.templates.append(tmpl)

    def run():
        broken = bool(E.choose(2))
        g = E.alloc(HInst(OBJECT, {
            'seen': E.new_list(Sym(Sn, Sn.nil)), 'todo': E.new_list(S),
            'cleared': False}))

        def getkey(E, o, a, k=None):
            E.prove('read before the node is cleared', E.not_(
                E.getattr(g, 'cleared')))
            if a[0] not in KEYS:
                raise Unsupported('attribute %r' % (a[0],))
            return E.getattr(o, KEYS[a[0]])
        SNode.meths['get'] = getkey
        At = TObj('SAttrib', attrs={'node': SNode}, hooks={
            'getitem': lambda E, o, i: getkey(E, E.getattr(o, 'node'), [i])},
            meths={'get': lambda E, o, a, k: getkey(
                E, E.getattr(o, 'node'), a)})
        atf = z3.Function('attrib of', SNode.sort(), At.sort())

        def attrib(E, o):
            E.assume(At.attrfn('node')(atf(o.e)) == o.e)
            return Sym(At, atf(o.e))
        SNode.attrs['attrib'] = attrib
        tags = {}
        SNode.attrs['tag'] = lambda E, o: tags.get(
            str(o.e), Sym(TStr, tag(o.e)))

        def clear(E, o, a, k):
            E.setattr(g, 'cleared', True)
        SNode.meths['clear'] = clear
        SNode.meths['getparent'] = lambda E, o, a, k: E.fresh('par', PNode)
        SNode.meths['getprevious'] = lambda E, o, a, k: E.fresh(
            'prev', TOpt(SNode))

        def nxt(E, a, k):
            todo = E.getattr(g, 'todo')
            c = E.z(todo, Sn)
            if E.branch(c == Sn.nil):
                if broken:
                    raise PyExc(E.mkexc(E.extclass(ExtV(
                        'lxml.etree.XMLSyntaxError')), ('bad',)))
                E.raise_('StopIteration')
            x, tl = E.fresh('node', SNode), E.fresh('todo', Sn)
            # the definitions of is_src and kindof
            n = ((None,) + SOURCE_TYPES)[E.choose(len(SOURCE_TYPES) + 1)]
            if n is None:
                tags.pop(str(x.e), None)
                E.assume(z3.Not(is_src(x.e)))
                for m in SOURCE_TYPES:
                    E.assume(tag(x.e) != url(m))
            else:
                E.assume(is_src(x.e))
                E.assume(tag(x.e) == url(n))
                E.assume(kindof(x.e) == sv(n))
                tags[str(x.e)] = nsurl(n + 'Source')
            E.assume(c == E.cat(Sn, one(x.e), tl.e))
            seen = E.getattr(g, 'seen')
            s0 = E.z(seen, Sn)
            E.assume(E.cat(Sn, s0, c) == E.cat(
                Sn, Sn.rawsnoc(s0, x.e), tl.e))
            E.call(E.getattr(seen, 'append'), [x])
            E.setattr(g, 'todo', E.new_list(tl))
            E.setattr(g, 'cleared', False)
            return ('end', x)
        stream = E.alloc(HInst(E.make_class('iterparse', [OBJECT], {}, None),
                               {'next': UFun('next', nxt)}))

        def iterparse(E, a, k):
            E.prove('the file named is read', a[0] == 'the file')
            E.prove('all the elements of the namespace',
                    k.get('tag') == nsurl('*'))
            return stream
        E.externals['lxml.etree.iterparse'] = iterparse

        def getfile(E, a, k):
            E.prove('the source model', a[1] == 'model.xml')
            return 'the file'
        E.contracts['logictree.SourceModelLogicTree._get_source_model'] = \
            getfile
        E.contracts['logictree.BaseLogicTree.get_xmlschema'] = \
            lambda E, a, k: 'schema'
        t = tree(E, 'SourceModelLogicTree',
                 tectonic_region_types=E.alloc(HSet(T0)),
                 source_types=E.alloc(HSet(K0)),
                 source_ids=E.alloc(HSet(I0)))
        r, exc = attempt(E, lambda: E.call(E.getattr(
            t, 'collect_source_model_data'), ['model.xml']))
        if exc is not None:
            E.prove('a ParsingError for a broken document', z3.And(
                exc_is(E, exc, 'logictree.ParsingError'), bool(broken)))
            reach(E, 'broken')
            return
        E.prove('an error is not lost', not broken)
        E.prove('the whole document is read',
                E.z(E.getattr(g, 'seen'), Sn) == S.e)
        for n, f in [('tectonic_region_types', ft), ('source_ids', fi),
                     ('source_types', fk)]:
            E.prove('%s of every source are known' % n,
                    E.z(E.getattr(t, n), KS) == f(S.e))
        reach(E, 'end')
    return run


# ------------------------------------------------ ground motion realizations
GS = TObj('GSet', attrs={'branchSetID': TStr, 'region': TStr})
GKEYS = {'branchSetID': 'branchSetID', 'applyToTectonicRegionType': 'region'}
GS.hooks['getitem'] = lambda E, o, i: E.getattr(o, GKEYS[i])
GS.hooks['eq'] = lambda E, a, b: E.z(a, GS) == E.z(b, GS)
GB = TObj('GBranch', attrs={'bset': GS, 'id': TStr, 'uncertainty': TStr,
                            'weight': TReal})
GBs = TSeq(GB)
Combos = TSeq(GBs)
Group = TObj('Group', attrs={'key': GS, 'items': GBs})
Groups = TSeq(Group)
bset, gid, gunc, gweight = [GB.attrfn(n) for n in
                            ('bset', 'id', 'uncertainty', 'weight')]
gkey, gitems = Group.attrfn('key'), Group.attrfn('items')
gsid, gregion = GS.attrfn('branchSetID'), GS.attrfn('region')
REG = 'applyToTectonicRegionType'


class Product(object):
    """itertools.product, by recursion over the arguments (the nested loops
    of its documentation)"""
    def __init__(self, E):
        one = Combos.rawsnoc(Combos.nil, GBs.nil)
        self.ext = E.add_fold(Fold(
            'with each last', GB, Combos, Combos.nil, lambda a, b, p, c:
            Combos.rawsnoc(a, GBs.rawsnoc(c, b)), params=[GBs], auto=False))
        self.flat = E.add_fold(Fold(
            'extended', GBs, Combos, Combos.nil, lambda a, c, p, it: E.cat(
                Combos, a, self.ext(it, c)), params=[GBs], auto=False))
        self.product = E.add_fold(Fold(
            'product', Group, Combos, one, lambda a, g, p: self.flat(
                a, gitems(g)), auto=False))
        self.wsum = E.add_fold(Fold(
            'wsum', GB, TReal, z3.RealVal(0), lambda a, b, p:
            a + gweight(b), auto=False))
        self.prod = E.add_fold(Fold(
            'weight', GB, TReal, z3.RealVal(1), lambda a, b, p:
            a * gweight(b)))
        self.total = E.add_fold(Fold(
            'total', GBs, TReal, z3.RealVal(0), lambda a, c, p:
            a + self.prod(c), hom=lambda a, b: a + b, auto=False))
        self.paths = E.add_fold(Fold(
            'number of paths', Group, TInt, z3.IntVal(1), lambda a, g, p:
            a * E.len(GBs, gitems(g))))
        self.keys = E.add_fold(Fold(
            'regions', Group, Strs, Strs.nil, lambda a, g, p: Strs.rawsnoc(
                a, gregion(gkey(g)))))
        self.bkeys = E.add_fold(Fold(
            'regions of the branches', GB, Strs, Strs.nil, lambda a, b, p:
            Strs.rawsnoc(a, gregion(bset(b))),
            hom=lambda a, b: E.cat(Strs, a, b)))


def t_combinations(E):
    """pure lemmas about the cartesian product"""
    P = Product(E)
    c0, it0, d0 = [z3.Const(n, GBs.sort()) for n in ('c0', 'it0', 'd0')]
    r0, R0 = z3.Const('r0', z3.StringSort()), z3.Const('R0', Strs.sort())
    b0 = z3.Const('b0', GB.sort())
    snoc = lambda s: z3.is_app(s) and s.num_args() == 2

    def l1(s):
        return E.len(Combos, P.ext(s, c0)) == E.len(GBs, s)
    E.induct('number of combinations with a given start', GBs, l1)

    def l2(s):
        if snoc(s):
            E.assume(E.len(Combos, P.ext(it0, s.arg(1))) ==
                     E.len(GBs, it0))
        return E.len(Combos, P.flat(s, it0)) == E.len(Combos, s) * E.len(
            GBs, it0)
    E.reg(GBs, it0)
    E.induct('number of extended combinations', Combos, l2)

    def l3(G):
        if snoc(G):
            q, it = P.product(G.arg(0)), gitems(G.arg(1))
            E.reg(Combos, q)
            E.assume(E.len(Combos, P.flat(q, it)) == E.len(
                Combos, q) * E.len(GBs, it))
        return E.len(Combos, P.product(G)) == P.paths(G)
    E.induct('the number of combinations is the number of paths', Groups, l3)

    def w1(s):
        return P.total(P.ext(s, c0)) == P.prod(c0) * P.wsum(s)
    E.induct('weights with a given start', GBs, w1)

    def w2(s):
        if snoc(s):
            c = s.arg(1)
            E.assume(P.total(P.ext(it0, c)) == P.prod(c) * P.wsum(it0))
        return P.total(P.flat(s, it0)) == P.total(s) * P.wsum(it0)
    E.induct('weights of the extended combinations', Combos, w2)
    unit = E.add_fold(Fold('sums to 1', Group, TBool, T, lambda a, g, p:
                           z3.And(a, P.wsum(gitems(g)) == 1)))

    def w3(G):
        if snoc(G):
            q, it = P.product(G.arg(0)), gitems(G.arg(1))
            E.assume(P.total(P.flat(q, it)) == P.total(q) * P.wsum(it))
        return z3.Implies(unit(G), P.total(P.product(G)) == 1)
    E.induct('the weights of the combinations sum to 1', Groups, w3)

    # each combination exactly once: how often d ++ [b] occurs
    cntc = E.add_fold(Fold('occurrences', GBs, TInt, z3.IntVal(0),
                           lambda a, c, p, d: a + z3.If(c == d, 1, 0),
                           params=[GBs], hom=lambda a, b: a + b,
                           auto=False))
    cntb = E.add_fold(Fold('occurrences of a branch', GB, TInt,
                           z3.IntVal(0), lambda a, b, p, d: a + z3.If(
                               b == d, 1, 0), params=[GB], auto=False))
    cntc.insts = [(GBs.rawsnoc(d0, b0),), (GBs.nil,), (d0,)]
    cntb.insts = [(b0,)]
    db = GBs.rawsnoc(d0, b0)

    def o1(s):
        return cntc(P.ext(s, c0), db) == z3.If(c0 == d0, cntb(s, b0), 0)
    E.induct('occurrences with a given start', GBs, o1)

    def o1n(s):
        return cntc(P.ext(s, c0), GBs.nil) == 0
    E.induct('no shorter combination with a given start', GBs, o1n)

    def o2(s):
        if snoc(s):
            c = s.arg(1)
            E.assume(cntc(P.ext(it0, c), db) == z3.If(
                c == d0, cntb(it0, b0), 0))
            E.assume(cntc(P.ext(it0, c), GBs.nil) == 0)
        return z3.And(
            cntc(P.flat(s, it0), db) == cntc(s, d0) * cntb(it0, b0),
            cntc(P.flat(s, it0), GBs.nil) == 0)
    E.induct('a combination occurs as often as its start times its last '
             'branch', Combos, o2)
    # the branches of a combination are those of the regions in order
    allreg = E.add_fold(Fold('regions in order', GBs, TBool, T,
                             lambda a, c, p, r: z3.And(a, P.bkeys(c) == r),
                             params=[Strs], hom=z3.And, auto=False))
    Rr = Strs.rawsnoc(R0, r0)
    allreg.insts = [(Rr,), (R0,)]
    every = E.add_fold(Fold('all of this region', GB, TBool, T, lambda
                            a, b, p, r: z3.And(a, gregion(bset(b)) == r),
                            params=[TStr], auto=False))
    every.insts = [(r0,)]

    def g1(s):
        return z3.Implies(z3.And(P.bkeys(c0) == R0, every(s, r0)),
                          allreg(P.ext(s, c0), Rr))
    E.induct('regions with a given start', GBs, g1)

    def g2(s):
        if snoc(s):
            c = s.arg(1)
            E.assume(z3.Implies(z3.And(P.bkeys(c) == R0, every(it0, r0)),
                                allreg(P.ext(it0, c), Rr)))
        return z3.Implies(z3.And(allreg(s, R0), every(it0, r0)),
                          allreg(P.flat(s, it0), Rr))
    E.induct('regions of the extended combinations', Combos, g2)
    own = E.add_fold(Fold('groups of one region', Group, TBool, T, lambda
                          a, g, p: z3.And(a, every(
                              gitems(g), gregion(gkey(g))))))

    def g3(G):
        if snoc(G):
            q, g = P.product(G.arg(0)), G.arg(1)
            ks, r = P.keys(G.arg(0)), gregion(gkey(g))
            E.assume(z3.Implies(
                z3.And(allreg(q, ks), every(gitems(g), r)),
                allreg(P.flat(q, gitems(g)), Strs.rawsnoc(ks, r))))
        return z3.Implies(own(G), allreg(P.product(G), P.keys(G)))
    E.induct('a combination has one branch per group, in order', Groups, g3)

    # sorted branches: the groups have different branch sets
    rank = z3.Function('order of', z3.StringSort(), z3.IntSort())
    rk = lambda g: rank(gsid(gkey(g)))
    last = lambda p: Groups.last(p)
    asc = E.add_fold(Fold(
        'sorted groups', Group, TBool, T, lambda a, g, p: z3.And(a, z3.Or(
            p == Groups.nil, z3.And(rk(last(p)) <= rk(g),
                                    gkey(last(p)) != gkey(g))))))
    mem = E.add_fold(Fold('has the key', Group, TBool, z3.BoolVal(False),
                          lambda a, g, p, k: z3.Or(a, gkey(g) == k),
                          params=[GS], auto=False))
    k0 = z3.Const('k0', GS.sort())
    mem.insts = [(k0,)]

    def a1(G):
        if snoc(G):
            p = G.arg(0)
            # identifiers of different branch sets are different: order
            E.assume(z3.Implies(gkey(last(p)) != gkey(G.arg(1)),
                                rk(last(p)) != rk(G.arg(1))))
        return z3.Implies(z3.And(asc(G), mem(G, k0)), z3.And(
            G != Groups.nil, rank(gsid(k0)) <= rk(last(G))))
    E.induct('keys of sorted groups', Groups, a1)

    def a2(G):
        if snoc(G):
            p, g = G.arg(0), G.arg(1)
            E.assume(z3.Implies(z3.And(asc(p), mem(p, gkey(g))), z3.And(
                p != Groups.nil, rank(gsid(gkey(g))) <= rk(last(p)))))
            E.assume(z3.Implies(gkey(last(p)) != gkey(g),
                                rk(last(p)) != rk(g)))
            return z3.Implies(asc(G), z3.Not(mem(p, gkey(g))))
        return z3.BoolVal(True)
    E.induct('sorted groups have different branch sets', Groups, a2)

    def run():
        reach(E, 'end')
    return run


def grouping(E, P, B, G):
    """the trusted contract of itertools.groupby on the sorted branches:
    the maximal runs with equal keys"""
    def hook(E, it, key):
        c = E.content(it)
        E.prove('the branches are grouped', E.z(E.new_list(c), GBs) == B.e)
        x = E.fresh('member', GB)
        k = E.call(key, [x], {})
        if isinstance(k, Sym) and k.t == GS:
            E.prove('grouped by branch set', k.e == bset(x.e))
            val = lambda g: Sym(GS, gkey(g))
        elif isinstance(k, Sym) and k.t == TStr:
            # identifiers, and regions, of different sets are different
            e = z3.simplify(k.e)
            if E.valid(e == gsid(bset(x.e)))[0] == 'proved':
                val = lambda g: Sym(TStr, gsid(gkey(g)))
            else:
                E.prove('grouped by branch set', e == gregion(bset(x.e)))
                val = lambda g: Sym(TStr, gregion(gkey(g)))
        else:
            raise Unsupported('grouped by %r' % (k,))
        return E.alloc(HZip([G], lambda vs: (
            val(vs[0].e), E.new_list(Sym(GBs, E.reg(
                GBs, gitems(vs[0].e)))))))
    E.externals['groupby'] = hook


def pointwise(t, over, fold, kk):
    """a dictionary built in the loop agrees with the fold at the key kk"""
    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != over:
            return []
        out = []
        for n, (lt, e) in L0.items():
            if lt == t:
                out += [
                    ('%s has the keys of %s' % (n, fold.name), lambda p, L,
                     n=n: z3.Select(t.has(L[n][1]), kk) == z3.Select(
                         t.has(fold(p)), kk)),
                    ('%s has the values of %s' % (n, fold.name), lambda p,
                     L, n=n: z3.Implies(
                         z3.Select(t.has(L[n][1]), kk),
                         z3.Select(t.val(L[n][1]), kk) == z3.Select(
                             t.val(fold(p)), kk)))]
        return out
    return tmpl


def t_num_branches(E):
    P = Product(E)
    B = E.const('branches', GBs)
    NUM = TMap(TStr, TInt)
    num = E.add_fold(Fold(
        'numbers', Group, NUM, NUM.mk(
            z3.K(z3.StringSort(), z3.BoolVal(False)),
            z3.Const('nothing', z3.ArraySort(z3.StringSort(),
                                             z3.IntSort()))),
        lambda a, g, p: NUM.mk(
            z3.Store(NUM.has(a), gsid(gkey(g)), T),
            z3.Store(NUM.val(a), gsid(gkey(g)), E.len(GBs, gitems(g))))))
    G = E.const('groups', Groups)
    kk = z3.Const('kk', z3.StringSort())
    E.templates.append(pointwise(NUM, Groups, num, kk))

    def run():
        grouping(E, P, B, G)
        t = tree(E, 'GsimLogicTree', branches=E.new_list(B))
        r = E.z(E.call(E.getattr(t, 'get_num_branches'), []), NUM)
        n = num(G.e)        # at any key kk
        E.prove('one number per branch set', z3.Select(
            NUM.has(r), kk) == z3.Select(NUM.has(n), kk))
        E.prove('the number of its branches', z3.Implies(
            z3.Select(NUM.has(n), kk), z3.Select(NUM.val(r), kk) ==
            z3.Select(NUM.val(n), kk)))
        reach(E, 'end')
    return run


def t_num_paths(E):
    Ints = TSeq(TInt)
    prod = E.add_fold(Fold('product', TInt, TInt, z3.IntVal(1),
                           lambda a, n, p: a * n))
    V = E.const('numbers', Ints)

    def run():
        it = lambda E, o, a, k: E.new_list(V)
        N = E.const('num', TObj('Numbers', meths={
            'itervalues': it, 'values': it}))
        calls = []

        def num(E, a, k):
            return N
        E.contracts['logictree.GsimLogicTree.get_num_branches'] = num
        t = tree(E, 'GsimLogicTree')
        r = E.call(E.getattr(t, 'get_num_paths'), [])
        E.prove('the product of the numbers of branches',
                E.z(r, TInt) == prod(V.e))
        reach(E, 'end')
    return run


PV = TSet(TTup(TStr, TStr))
VMAP = TMap(TStr, TStr)


def ghost_values(E, cell):
    """self.values: region -> models, as a set of pairs"""
    VL = TObj('Models', attrs={'of': TStr})
    vl = z3.Function('models of', z3.StringSort(), VL.sort())
    pair = TTup(TStr, TStr)

    def get(E, o, i):
        k = E.z(i, TStr)
        E.assume(VL.attrfn('of')(vl(k)) == k)
        return Sym(VL, vl(k))

    def append(E, o, a, k):
        s = E.z(E.getattr(cell, 'pairs'), PV)
        E.setattr(cell, 'pairs', Sym(PV, z3.Store(s, pair.mk(
            VL.attrfn('of')(o.e), E.z(a[0], TStr)), T)))

    VL.meths['append'] = append
    VL.hooks['contains'] = lambda E, o, x: z3.Select(
        E.z(E.getattr(cell, 'pairs'), PV), pair.mk(
            VL.attrfn('of')(o.e), E.z(x, TStr)))
    return E.const('values', TObj('Values', hooks={'getitem': get}, meths={
        'setdefault': lambda E, o, a, k: get(E, o, a[0])}))


def t_gsim_iter(E):
    P = Product(E)
    B = E.const('branches', GBs)
    pair = TTup(TStr, TStr)
    ids = E.add_fold(Fold('ids', GB, Strs, Strs.nil, lambda a, b, p:
                          Strs.rawsnoc(a, gid(b))))
    empty = VMAP.mk(z3.K(z3.StringSort(), z3.BoolVal(False)), z3.Const(
        'nothing', z3.ArraySort(z3.StringSort(), z3.StringSort())))
    val = E.add_fold(Fold('value', GB, VMAP, empty, lambda a, b, p: VMAP.mk(
        z3.Store(VMAP.has(a), gregion(bset(b)), T),
        z3.Store(VMAP.val(a), gregion(bset(b)), gunc(b)))))
    items = E.add_fold(Fold('items', Group, Combos, Combos.nil, lambda
                            a, g, p: Combos.rawsnoc(a, gitems(g))))
    # dictionaries are compared at any key kk
    kk = z3.Const('kk', z3.StringSort())
    E.templates.append(pointwise(VMAP, GBs, val, kk))
    Real = TTup(TBool, TStr, TReal, Strs)
    Reals = TSeq(Real)
    mk = lambda v, w, i: Real.mk(
        z3.Select(VMAP.has(v), kk), z3.If(
            z3.Select(VMAP.has(v), kk), z3.Select(VMAP.val(v), kk),
            sv('')), w, i)
    reals = E.add_fold(Fold('realizations', GBs, Reals, Reals.nil, lambda
                            a, c, p: Reals.rawsnoc(a, mk(
                                val(c), P.prod(c), ids(c)))))
    G = E.const('groups', Groups)
    x0, p0 = z3.Const('x0', GB.sort()), E.const('p0', GBs).e
    E.induct('as many regions as branches', GBs, lambda s: E.len(
        Strs, P.bkeys(s)) == E.len(GBs, s))
    nth = E.nthfold(Strs)
    X0, Q0 = z3.Const('X0', z3.StringSort()), E.const('Q0', Strs).e
    E.induct('nth of a concatenation', Strs, lambda s: nth(E.cat(
        Strs, Strs.rawsnoc(Q0, X0), s), E.len(Strs, Q0)) == X0)

    def at(E, seq, p, x, rest):
        if seq.t == GBs:
            bk = P.bkeys
            for q in (p, seq.e):
                E.assume(E.len(Strs, bk(q)) == E.len(GBs, q))
            r = gregion(bset(x))
            # seq = p ++ [x] ++ rest, hence also for the regions
            E.assume(bk(seq.e) == E.cat(Strs, Strs.rawsnoc(bk(p), r),
                                        bk(rest)))
            E.assume(nth(E.cat(Strs, Strs.rawsnoc(bk(p), r), bk(rest)),
                         E.len(Strs, bk(p))) == r)
            # class invariant: the models of the branches are the values
            E.assume(z3.Select(PAIRS, pair.mk(r, gunc(x))))
    PAIRS = z3.Const('pairs', PV.sort())
    E.split_hooks.append(at)

    def run():
        grouping(E, P, B, G)
        cell = E.alloc(HInst(OBJECT, {'pairs': Sym(PV, PAIRS)}))
        t = tree(E, 'GsimLogicTree', branches=E.new_list(B),
                 branchset_filter=REG, values=ghost_values(E, cell))
        C = Sym(Combos, E.reg(Combos, P.product(G.e)))

        def product(E, args):
            from pydv.interp import StarSym
            ok = len(args) == 1 and isinstance(args[0], StarSym)
            E.prove('product of the groups', ok)
            gs = args[0].seq
            E.prove('all the groups of branches, in order', E.z(
                E.new_list(E.content(gs)), Combos) == items(G.e))

            def combo(c):
                # lemma: one branch per group, in order
                e = c.e
                E.reg(GBs, e)
                E.assume(P.bkeys(e) == P.keys(G.e))
                E.assume(E.len(Strs, P.bkeys(e)) == E.len(GBs, e))
                return E.new_list(c)
            return E.alloc(HZip([C], lambda vs: combo(vs[0])))
        E.externals['product'] = product
        gen = E.call(E.getattr(t, '__iter__'), [])
        out = E.new_list(Sym(Reals, Reals.nil))

        def body(v):
            E.prove('a realization', E.h(v).cls is E.lookup_path(
                'logictree.LtRealization'))
            m = E.z(E.getattr(v, 'value'), VMAP)
            E.call(E.getattr(out, 'append'), [Sym(Real, mk(
                m, E.z(E.getattr(v, 'weight'), TReal),
                E.z(E.getattr(v, 'lt_path'), Strs)))])
        cell = []
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
        E.prove('model by region, weight and identifiers of every '
                'combination', E.z(out, Reals) == reals(C.e))
        reach(E, 'end')
    return run


def t_order(E):
    """branches are ordered by branch set identifier, then identifier"""
    v = [E.const(n, TStr) for n in ('set1', 'id1', 'set2', 'id2')]
    M, W = TObj('M1'), TObj('W1')

    def run():
        cls = E.lookup_path('logictree.BranchTuple')
        S = TObj('NodeWithId', attrs={'branchSetID': TStr}, hooks={
            'getitem': lambda E, o, i: E.getattr(o, 'branchSetID')
            if i == 'branchSetID' else None})
        s1, s2 = E.const('s1', S), E.const('s2', S)
        for s, x in ((s1, v[0]), (s2, v[2])):
            E.assume(S.attrfn('branchSetID')(s.e) == x.e)
        a, b = [E.call(cls, [s, i, E.const('m%d' % k, M),
                             E.const('w%d' % k, W)])
                for k, (s, i) in enumerate(((s1, v[1]), (s2, v[3])))]
        r = E.lt(a, b)
        r = r.e if isinstance(r, Sym) else r
        E.prove('branch set first, then branch', r == z3.Or(
            v[0].e < v[2].e, z3.And(v[0].e == v[2].e, v[1].e < v[3].e)))
        reach(E, 'end')
    return run


def t_gsim_init(E):
    """the constructor: distinct regions, sorted branches, at least one"""
    K = E.const('keys', Strs)
    Y = E.const('parsed', GBs)
    elems = E.add_fold(Fold('elements', TStr, KS, z3.K(
        z3.StringSort(), z3.BoolVal(False)), lambda a, x, p: z3.Store(
            a, x, T)))
    sortk = z3.Function('sorted keys', Strs.sort(), Strs.sort())
    sortb = z3.Function('sorted branches', GBs.sort(), GBs.sort())

    def run():
        E.reg(Strs, sortk(K.e))
        E.reg(GBs, sortb(Y.e))
        broken = bool(E.choose(2))
        # trusted: sorting permutes; a list is longer than its set iff it
        # repeats something
        E.assume(E.len(Strs, sortk(K.e)) == E.len(Strs, K.e))
        E.assume(E.len(GBs, sortb(Y.e)) == E.len(GBs, Y.e))
        E.assume(elems(sortk(K.e)) == elems(K.e))
        card = z3.Function('card_' + KS.name, KS.sort(), z3.IntSort())(
            elems(K.e))
        E.assume(card <= E.len(Strs, K.e))
        E.assume(card >= 0)
        distinct = card == E.len(Strs, K.e)

        def hook(E, c, key, reverse):
            if key is not None or reverse not in (False, None):
                return None     # any other order is another function
            if c.t == Strs:
                return E.new_list(Sym(Strs, sortk(c.e)))
            if c.t == GBs:
                return E.new_list(Sym(GBs, sortb(c.e)))
        E.externals['sorted'] = hook
        inv = E.lookup_path('logictree.InvalidLogicTree')

        def parse(E, a, k):
            d = E.getattr(a[0], 'values')
            E.prove('no models yet', E.h(d).d == {} or E.h(d).d == [])
            E.prove('the file', E.eq(E.getattr(a[0], 'fname'), 'file.xml'))
            E.prove('the filter', E.eq(E.getattr(
                a[0], 'branchset_filter'), REG))
            f = E.z(E.getattr(a[0], 'filter_keys'), Strs)
            x = E.fresh('any', TStr)
            E.prove('the regions asked for', elems(f) == elems(K.e))
            if broken:
                raise PyExc(E.mkexc(inv, ('parse',)))
            return E.new_list(Y)
        E.contracts['logictree.GsimLogicTree._parse_lt'] = parse
        cls = E.lookup_path('logictree.GsimLogicTree')
        r, exc = attempt(E, lambda: E.call(cls, ['file.xml', REG,
                                                 E.new_list(K)]))
        some = z3.Or(K.e == Strs.nil, Y.e != GBs.nil)
        if exc is not None:
            E.prove('refused only for repeated regions, broken files or no '
                    'branches', z3.Not(z3.And(distinct, some,
                                              not broken)))
            E.prove('a ValueError or InvalidLogicTree', z3.Or(
                z3.And(z3.Not(distinct), E.exc_matches(
                    exc.value, E.builtins['ValueError'])),
                exc_is(E, exc, 'logictree.InvalidLogicTree')))
            reach(E, 'refused')
            return
        E.prove('repeated regions, broken files and files without branches '
                'are refused', z3.And(distinct, some, not broken))
        E.prove('the branches are sorted', E.z(E.getattr(
            r, 'branches'), GBs) == sortb(Y.e))
        reach(E, 'end')
    return run


LSN = TObj('LSetNode', attrs={'utype': TStr, 'region': TOpt(TStr)})
LBN = TObj('LBranchNode', attrs={'bid': TStr, 'wtext': TStr, 'mtext': TStr})
LBNs = TSeq(LBN)
LSNs = TSeq(LSN)
Level = TObj('Level', attrs={'sets': LSNs, 'lid': TStr})
Levels = TSeq(Level)
lsnodes = z3.Function('branches of a set', LSN.sort(), LBNs.sort())
YT = TTup(LSN, TStr, TStr, TReal)
YTs = TSeq(YT)
OStr = TOpt(TStr)


def t_gsim_parse(E):
    """_parse_lt: the branches of the sets of the given regions, in order;
    everything ill formed is an InvalidLogicTree"""
    setup(E)
    utype, region = LSN.attrfn('utype'), LSN.attrfn('region')
    nid_, wt, mt = [LBN.attrfn(n) for n in ('bid', 'wtext', 'mtext')]
    lsets = Level.attrfn('sets')
    KEYS = E.const('filter_keys', Strs)
    asked = z3.Function('asked for', z3.StringSort(), z3.BoolSort())
    rs = lambda s: OStr.val(region(s))
    given = lambda s: z3.And(z3.Not(OStr.is_none(region(s))),
                             rs(s) != sv(''))
    sel = lambda s: z3.And(z3.Not(OStr.is_none(region(s))), asked(rs(s)))
    pairt = TTup(TStr, TStr)
    mk = lambda b, s: YT.mk(s, nid_(b), stripf(mt(b)), decimalf(wt(b)))
    ybr = E.add_fold(Fold('branches of one set', LBN, YTs, YTs.nil, lambda
                          a, b, p, s: YTs.rawsnoc(a, mk(b, s)),
                          params=[LSN], auto=False))
    wsum = E.add_fold(Fold('sum of weights', LBN, TReal, z3.RealVal(0),
                           lambda a, b, p: a + decimalf(wt(b))))
    yset = E.add_fold(Fold('branches of sets', LSN, YTs, YTs.nil, lambda
                           a, s, p: z3.If(sel(s), E.cat(
                               YTs, a, ybr(lsnodes(s), s)), a),
                           hom=lambda a, b: E.cat(YTs, a, b)))
    ylev = E.add_fold(Fold('branches', Level, YTs, YTs.nil, lambda a, l, p:
                           z3.If(lsets(l) == LSNs.nil, a, E.cat(
                               YTs, a, yset(lsets(l))))))
    OStrs = TSeq(OStr)
    kset = E.add_fold(Fold('regions of sets', LSN, OStrs, OStrs.nil, lambda
                           a, s, p: z3.If(given(s), OStrs.rawsnoc(
                               a, region(s)), a),
                           hom=lambda a, b: E.cat(OStrs, a, b)))
    klev = E.add_fold(Fold('regions', Level, OStrs, OStrs.nil, lambda
                           a, l, p: z3.If(lsets(l) == LSNs.nil, a, E.cat(
                               OStrs, a, kset(lsets(l))))))
    OS = TSet(OStr)
    elems = E.add_fold(Fold('elements', OStr, OS, z3.K(
        OStr.sort(), z3.BoolVal(False)), lambda a, x, p: z3.Store(a, x, T)))
    distinct = E.add_fold(Fold('all distinct', OStr, TBool, T, lambda
                               a, x, p: z3.And(a, z3.Not(z3.Select(
                                   elems(p), x)))))
    Reals = TSeq(TReal)
    wl = E.add_fold(Fold('sum of list', TReal, TReal, z3.RealVal(0),
                         lambda a, x, p: a + x))
    okset = E.add_fold(Fold('only ground motion models', LSN, TBool, T,
                            lambda a, s, p: z3.And(a, utype(s) == sv(
                                'gmpeModel')), hom=z3.And))
    oklev = E.add_fold(Fold('well formed levels', Level, TBool, T, lambda
                            a, l, p: z3.And(a, E.len(
                                LSNs, lsets(l)) <= 1, okset(lsets(l))),
                            hom=z3.And))
    wset = E.add_fold(Fold('weights of sets', LSN, TBool, T, lambda a, s, p:
                           z3.And(a, z3.Implies(sel(s), wsum(
                               lsnodes(s)) == 1)), hom=z3.And))
    wlev = E.add_fold(Fold('weights', Level, TBool, T, lambda a, l, p:
                           z3.And(a, wset(lsets(l))), hom=z3.And))
    S = E.const('levels', Levels)

    def tmpl(E, seq, L0, node):
        out = []
        if seq is None:
            return out
        q = seq.t
        for n, (t, e) in L0.items():
            if t == YTs:
                if q == LBNs and seq.e.decl().name() == 'branches of a set':
                    s = seq.e.arg(0)
                    ybr.insts = [(s,)]
                    out.append(('%s extended by one set' % n,
                                lambda p, L, n=n, e=e, s=s: L[n][1] == E.cat(
                                    YTs, e, ybr(p, s))))
                elif q == LSNs:
                    out.append(('%s extended by the sets' % n,
                                lambda p, L, n=n, e=e: L[n][1] == z3.If(
                                    p == LSNs.nil, e, E.cat(
                                        YTs, e, yset(p)))))
            if t == OStrs and q == LSNs:
                out.append(('%s extended by the regions' % n,
                            lambda p, L, n=n, e=e: L[n][1] == z3.If(
                                p == LSNs.nil, e, E.cat(
                                    OStrs, e, kset(p)))))
            if t == Reals and q == LBNs:
                out.append(('%s has the weights' % n, lambda p, L, n=n:
                            wl(L[n][1]) == wsum(p)))
        return out
    E.templates.append(tmpl)

    def at(E, seq, p, x, rest):
        if seq.t == LSNs and z3.is_app(seq.e):
            E.reg(LBNs, lsnodes(x))
            one = LSNs.rawsnoc(LSNs.nil, x)
            for f in (yset, kset):
                E.assume(z3.Implies(p == LSNs.nil, f(LSNs.rawsnoc(
                    p, x)) == f(one)))
                E.assume(z3.Implies(z3.And(p == LSNs.nil, rest == LSNs.nil),
                                    f(seq.e) == f(one)))
        if seq.t == Levels:
            E.reg(LSNs, lsets(x))
    E.split_hooks.append(at)

    def run():
        cell = E.alloc(HInst(OBJECT, {'pairs': Sym(PV, z3.K(
            pairt.sort(), z3.BoolVal(False)))}))

        def text(name):
            TX = TObj('Text_' + name, attrs={'owner': LBN})
            f = z3.Function('text ' + name, LBN.sort(), TX.sort())

            def get(E, o):
                E.assume(TX.attrfn('owner')(f(o.e)) == o.e)
                return Sym(TX, f(o.e))
            TX.attrs['text'] = lambda E, o: Sym(TStr, LBN.attrfn(
                {'uncertaintyWeight': 'wtext', 'uncertaintyModel':
                 'mtext'}[name])(TX.attrfn('owner')(o.e)))
            return get
        for n in ('uncertaintyWeight', 'uncertaintyModel'):
            LBN.attrs[n] = text(n)

        def bitem(E, o, i):
            if i != 'branchID':
                raise Unsupported('attribute %r' % (i,))
            return E.getattr(o, 'bid')
        LBN.hooks['getitem'] = bitem
        At = TObj('LAttrib', attrs={'owner': LSN})
        atf = z3.Function('lattrib', LSN.sort(), At.sort())

        def reg_of(E, o, name):
            E.prove('the attribute asked for', E.eq(name, REG))
            return E.getattr(o, 'region')

        def attrib(E, o):
            E.assume(At.attrfn('owner')(atf(o.e)) == o.e)
            return Sym(At, atf(o.e))
        At.meths['get'] = lambda E, o, a, k: reg_of(
            E, E.getattr(o, 'owner'), a[0])
        LSN.attrs['attrib'] = attrib

        def sitem(E, o, i):
            if i != 'uncertaintyType':
                raise Unsupported('attribute %r' % (i,))
            return E.getattr(o, 'utype')
        LSN.hooks['getitem'] = sitem
        LSN.hooks['iter'] = lambda E, o: E.new_list(Sym(LBNs, E.reg(
            LBNs, lsnodes(o.e))))
        Level.hooks['iter'] = lambda E, o: E.new_list(E.getattr(o, 'sets'))
        Level.hooks['len'] = lambda E, o: Sym(TInt, E.len(
            LSNs, E.reg(LSNs, lsets(o.e))))
        Level.hooks['getitem'] = lambda E, o, i: E.getattr(o, 'lid')
        Keys = TObj('Keys', hooks={
            'contains': lambda E, o, x: False if x is None else (
                z3.And(z3.Not(OStr.is_none(x.e)), asked(OStr.val(x.e)))
                if isinstance(x, Sym) and x.t == OStr else
                asked(E.z(x, TStr)))})
        root = E.const('nrml', TObj('Nrml', attrs={
            'logicTree': lambda E, o: E.new_list(S)}))

        def read(E, a, k):
            E.prove('the file given is read', E.eq(a[0], 'file.xml'))
            return root
        E.externals['openquake.nrmllib.node.node_from_xml'] = read
        t = tree(E, 'GsimLogicTree', fname='file.xml', branchset_filter=REG,
                 filter_keys=E.const('keys', Keys),
                 values=ghost_values(E, cell))
        g = E.alloc(HInst(OBJECT, {'out': E.new_list(Sym(YTs, YTs.nil))}))

        def body(v):
            E.prove('a branch', E.h(v).cls is E.lookup_path(
                'logictree.BranchTuple'))
            b, i, u, w = [E.getattr(v, n) for n in (
                'bset', 'id', 'uncertainty', 'weight')]
            E.prove('its model is one of the region', z3.Select(E.z(
                E.getattr(cell, 'pairs'), PV), pairt.mk(
                    rs(b.e), E.z(u, TStr))))
            E.call(E.getattr(E.getattr(g, 'out'), 'append'), [Sym(
                YT, YT.mk(b.e, E.z(i, TStr), E.z(u, TStr),
                          E.z(w, TReal)))])

        def consume():
            gen = E.call(E.getattr(t, '_parse_lt'), [])
            c = []
            E.loop_gen(E.h(gen), c.append, lambda: body(c.pop()), None)
        # trusted: a list is longer than its set iff it repeats something
        ks = klev(S.e)
        E.reg(OStrs, ks)
        card = z3.Function('card_' + OS.name, OS.sort(), z3.IntSort())(
            elems(ks))
        E.assume(card <= E.len(OStrs, ks))
        E.assume((card == E.len(OStrs, ks)) == distinct(ks))
        r, exc = attempt(E, consume)
        good = z3.And(oklev(S.e), distinct(ks))
        if exc is not None:
            if E.exc_matches(exc.value, E.builtins['AssertionError']):
                E.prove('only for weights not summing to 1',
                        z3.Not(wlev(S.e)))
                reach(E, 'weights')
                return
            E.prove('an InvalidLogicTree', exc_is(
                E, exc, 'logictree.InvalidLogicTree'))
            E.prove('nothing well formed is refused', z3.Not(good))
            reach(E, 'refused')
            return
        E.prove('nothing ill formed is accepted', good)
        E.prove('the weights of every region sum to 1', wlev(S.e))
        E.prove('the branches of the given regions, in order', E.z(
            E.getattr(g, 'out'), YTs) == ylev(S.e))
        reach(E, 'accepted')
    return run


T_ = ['logictree']
AR = ['accepted', 'refused']
TASKS = {
    'C29': [Task('the recursive enumeration', t_recursive, T_,
                 covers=['end']),
            Task('enumerate_paths', t_enumerate, T_, covers=['end']),
            Task('the weights sum to 1', t_weights, T_, covers=['end']),
            Task('__iter__', t_iter, T_, covers=['end'])],
    'C30': [Task('sample_one', t_sample_one, T_, covers=['end']),
            Task('sample', t_sample, T_, covers=['end']),
            Task('sample_path', t_sample_path, T_, covers=['end']),
            Task('__iter__ with samples', t_iter_samples, T_,
                 covers=['end'])],
    'C32': [Task('apply_branchset of %s' % c,
                 lambda E, c=c: t_apply(E, c), T_,
                 covers=['end'] + (['refused'] if c[0] == 'S' else []))
            for c in ('SourceModelLogicTree', 'GMPELogicTree')] + [
                Task('parse_branchinglevel of %s%s' % (
                    c, ', validating' if v else ''),
                    lambda E, c=c, v=v: t_level(E, c, v), T_,
                    covers=['end', 'refused'])
                for c in ('SourceModelLogicTree', 'GMPELogicTree')
                for v in (True, False)] + [
                Task('parse_tree of %s%s' % (
                    c, ', validating' if v else ''),
                    lambda E, c=c, v=v: t_parse_tree(E, c, v), T_,
                    covers=['end'])
                for c in ('SourceModelLogicTree', 'GMPELogicTree')
                for v in (True, False)] + [
                Task('skipped branch sets', t_skip, T_, covers=['end'])],
    'C33': [Task('filter_source', lambda E: t_uncertainty(E, True), T_,
                 covers=['end']),
            Task('apply_uncertainty', lambda E: t_uncertainty(E, False), T_,
                 covers=['applied', 'not applied']),
            Task('get_branch_by_id', t_by_id, T_, covers=['end']),
            Task('make_apply_uncertainties', t_walk, T_, covers=['end'])],
    'C34': [Task('SourceModelLogicTree.validate_filters', t_sm_filters, T_,
                 covers=AR),
            Task('SourceModelLogicTree.validate_branchset', t_sm_branchset,
                 T_, covers=AR),
            Task('SourceModelLogicTree.validate_uncertainty_value',
                 t_sm_value, T_, covers=AR),
            Task('SourceModelLogicTree.parse_uncertainty_value',
                 t_sm_parse_value, T_, covers=['name', 'number', 'pair']),
            Task('SourceModelLogicTree.parse_filters', t_sm_parse_filters,
                 T_, covers=['end']),
            Task('SourceModelLogicTree.collect_source_model_data',
                 t_collect, T_, covers=['end', 'broken']),
            Task('GMPELogicTree.validate_filters', t_gm_filters, T_,
                 covers=AR),
            Task('GMPELogicTree.validate_branchset', t_gm_branchset, T_,
                 covers=AR),
            Task('GMPELogicTree.uncertainty values', t_gm_value, T_,
                 covers=AR),
            Task('GMPELogicTree.validate_tree', t_gm_tree, T_, covers=AR),
            Task('GMPELogicTree.skip_branchset_condition', t_skip, T_,
                 covers=['end'])] + [
                Task('parse_branchset of %s%s' % (
                    c, ', validating' if v else ''),
                    lambda E, c=c, v=v: t_parse_branchset(E, c, v), T_,
                    covers=AR if v else ['accepted'])
                for c in ('SourceModelLogicTree', 'GMPELogicTree')
                for v in (True, False)],
    'C35': [Task('combinations', t_combinations, T_, covers=['end']),
            Task('make_trt_to_gsim', t_trt_gsim, T_,
                 covers=['end', 'refused']),
            Task('get_num_branches', t_num_branches, T_, covers=['end']),
            Task('get_num_paths', t_num_paths, T_, covers=['end']),
            Task('__iter__ of a GsimLogicTree', t_gsim_iter, T_,
                 covers=['end']),
            Task('constructor of a GsimLogicTree', t_gsim_init, T_,
                 covers=['end', 'refused']),
            Task('order of the branches', t_order, T_, covers=['end']),
            Task('_parse_lt', t_gsim_parse, T_,
                 covers=['accepted', 'refused', 'weights'])],
    'C31': [Task('parse_branches of %s%s' % (c, ', validating' if v else ''),
                 lambda E, c=c, v=v: t_parse_branches(E, c, v), T_,
                 covers=['accepted', 'refused'])
            for c in ('SourceModelLogicTree', 'GMPELogicTree')
            for v in (True, False)] + [
                Task('Branch and BranchSet', t_branch, T_, covers=['end'])],
}
