"""riskloaders.py: vulnerability functions by taxonomy and loss type,
fragility functions by taxonomy."""
from .base import *     # noqa
from .c_source import consume
from .c_logictree import pointwise, sym_dict

S = z3.StringSort()
Levels = TObj('Levels')
Value = TObj('Value')
REC = {'ID': TStr, 'IMT': TStr, 'IML': Levels, 'lossRatio': Value,
       'coefficientsVariation': Value, 'probabilisticDistribution': TStr}


def rec_item(E, o, a, *r):
    k = a if isinstance(a, str) else a[0]
    if k not in REC:
        E.raise_('KeyError', k)
    return E.getattr(o, k)


Rec = TObj('VRecord', attrs=dict(REC), hooks={'getitem': rec_item})
Recs = TSeq(Rec)
Strs = TSeq(TStr)
VF = TObj('VulnFunction')
PARAMS = ['imt', 'imls', 'mean_loss_ratios', 'covs', 'distribution_name']
FROM = ['IMT', 'IML', 'lossRatio', 'coefficientsVariation',
        'probabilisticDistribution']
ARGS = [TStr, Levels, Value, Value, TStr]
sorts = [t.sort() for t in ARGS]
vff = z3.Function('vulnerability function', *(sorts + [VF.sort()]))
okf = z3.Function('valid function', *(sorts + [z3.BoolSort()]))
whyf = z3.Function('reason', *(sorts + [S]))
recsf = z3.Function('records of', S, Recs.sort())
VFS = TMap(TStr, VF)
Pair = TTup(TStr, VF)
Pairs = TSeq(Pair)
GROUPED = TMap(TStr, Pairs)
Names = TMap(TStr, TStr)
OStr = TOpt(TStr)
rid = Rec.attrfn('ID')


def vfargs(x):
    return [Rec.attrfn(n)(x) for n in FROM]


def empty(t):
    return t.mk(z3.K(t.k.sort(), F), z3.Const('nothing in ' + t.name,
                                              z3.ArraySort(t.k.sort(),
                                                           t.v.sort())))


def put(t, m, k, v):
    return t.mk(z3.Store(t.has(m), k, T), z3.Store(t.val(m), k, v))


def setup_vulnerability(E):
    def vf(E, a, k):
        d = dict(zip(PARAMS, a), **k)
        if set(d) != set(PARAMS):
            raise Unsupported('a vulnerability function with the default '
                              'distribution')
        args = [E.z(d[n], t) for n, t in zip(PARAMS, ARGS)]
        if not E.branch(okf(*args)):
            E.raise_('ValueError', Sym(TStr, whyf(*args)))
        return Sym(VF, vff(*args))
    E.externals['openquake.risklib.scientific.VulnerabilityFunction'] = vf

    def parser(E, a, k):
        return E.new_list(Sym(Recs, recsf(E.z(a[0], TStr))))
    E.externals['openquake.nrmllib.risk.parsers.VulnerabilityModelParser'] = \
        parser
    E.modules.pop('openquake.commonlib.riskloaders', None)


class Vuln(object):
    """what the files say about any taxonomy tt"""
    def __init__(self, E):
        self.E = E
        tt = self.tt = z3.Const('tt', S)
        self.vfs = E.add_fold(Fold(
            'functions', Rec, VFS, empty(VFS), lambda a, x, p: put(
                VFS, a, rid(x), vff(*vfargs(x)))))
        self.ids = E.add_fold(Fold(
            'taxonomies', Rec, TSet(TStr), z3.K(S, F), lambda a, x, p:
            z3.Store(a, rid(x), T)))
        self.bad = E.add_fold(Fold(
            'first offender', Rec, OStr, OStr.none, lambda a, x, p: z3.If(
                z3.And(OStr.is_none(a), z3.Or(
                    z3.Select(self.ids(p), rid(x)),
                    z3.Not(okf(*vfargs(x))))), OStr.some(rid(x)), a)))
        sticky(E, self.bad)
        self.keys = E.induct(
            'the functions are those of the taxonomies', Recs,
            lambda s: z3.Select(VFS.has(self.vfs(s)), tt) ==
            z3.Select(self.ids(s), tt))
        self.at_x = E.induct(
            'the functions are those of any taxonomy', Recs,
            lambda s: VFS.has(self.vfs(s)) == self.ids(s))
        E.templates.append(pointwise(VFS, Recs, self.vfs, tt))
        E.templates.append(self.all_keys)
        E.split_hooks.append(self.split)

    def all_keys(self, E, seq, L0, node):
        if seq is None or seq.t != Recs:
            return []
        return [('no offender so far', lambda p, L: OStr.is_none(
            self.bad(p)))] + [('%s has the taxonomies so far' % n, lambda p, L, n=n:
                 VFS.has(L[n][1]) == self.ids(p))
                for n, (lt, e) in L0.items() if lt == VFS]

    def named(self, exc, bad):
        """the error names the first offender"""
        E, x = self.E, self.x
        E.prove('the first offender is refused', bad == OStr.some(x))
        mentions(E, 'naming the first offender', message(E, exc), x)

    def split(self, E, seq, p, x, rest):
        if seq.t == Recs:
            self.x = rid(x)
            E.assume(self.keys(p))
            E.assume(self.at_x(p))


def t_file(E):
    """_get_vulnerability_functions: one function per record, keyed by its
    taxonomy, or a ValueError naming the first offender"""
    setup_vulnerability(E)
    P = Vuln(E)
    fname = E.const('fname', TStr)
    R = recsf(fname.e)

    def run():
        bad = P.bad(R)
        E.reg(Recs, R)
        good = E.branch(OStr.is_none(bad))
        r, exc = attempt(E, lambda: E.call(E.lookup_path(
            'riskloaders._get_vulnerability_functions'), [fname]))
        if exc is not None:
            E.prove('refused only when a taxonomy is repeated or a function '
                    'cannot be built', not good)
            E.prove('refused with a ValueError', E.exc_matches(
                exc.value, E.builtins['ValueError']))
            P.named(exc, bad)
            reach(E, 'refused')
            return
        E.prove('a repeated taxonomy or an impossible function is refused',
                good)
        m = E.z(r, VFS)
        tt = P.tt
        E.prove('exactly the taxonomies of the file', z3.Select(
            VFS.has(m), tt) == z3.Select(P.ids(R), tt))
        E.prove('each with its own function', z3.Implies(
            z3.Select(P.ids(R), tt), z3.Select(VFS.val(m), tt) ==
            z3.Select(VFS.val(P.vfs(R)), tt)))
        reach(E, 'accepted')
    return run


class Groups(object):
    """the functions of any taxonomy tt by loss type, for a list of loss
    types and the files given as inputs"""
    def __init__(self, E, retro):
        setup_vulnerability(E)
        P = self.P = Vuln(E)
        self.E, tt = E, P.tt
        ll = self.ll = z3.Const('ll', S)        # any loss type
        INP = self.INP = E.const('inputs', Names)
        suffix = '_vulnerability' + ('_retrofitted' if retro else '')
        self.key = lambda lt: z3.Concat(z3.If(
            lt == z3.StringVal('fatalities'), z3.StringVal('occupants'), lt),
            z3.StringVal(suffix))
        self.given = lambda lt: z3.Select(Names.has(INP.e), self.key(lt))
        self.recs = lambda lt: recsf(z3.Select(Names.val(INP.e),
                                               self.key(lt)))
        self.defined = lambda lt: z3.And(self.given(lt), z3.Select(
            VFS.has(P.vfs(self.recs(lt))), tt))
        self.vf = lambda lt: z3.Select(VFS.val(P.vfs(self.recs(lt))), tt)
        g = self.g = E.add_fold(Fold(
            'functions of the taxonomy', TStr, Pairs, Pairs.nil,
            lambda a, x, p: z3.If(self.defined(x), Pairs.rawsnoc(
                a, Pair.mk(x, self.vf(x))), a)))
        self.bad = E.add_fold(Fold(
            'first offender of the files', TStr, OStr, OStr.none,
            lambda a, x, p: z3.If(z3.And(OStr.is_none(a), self.given(x)),
                                  P.bad(self.recs(x)), a)))
        sticky(E, self.bad)
        d = self.d = E.add_fold(Fold(
            'by loss type', Pair, VFS, empty(VFS), lambda a, x, p: put(
                VFS, a, Pair.get(x, 0), Pair.get(x, 1))))
        mem = self.mem = E.memfold(Strs)
        self.lem = E.induct(
            'exactly the loss types whose file defines the taxonomy', Strs,
            lambda s: z3.And(
                z3.Select(VFS.has(d(g(s))), ll) == z3.And(
                    mem(s, ll), self.defined(ll)),
                z3.Implies(z3.Select(VFS.has(d(g(s))), ll),
                           z3.Select(VFS.val(d(g(s))), ll) ==
                           self.vf(ll))))
        self.any = E.induct(
            'a defined loss type means a function', Strs, lambda s:
            z3.Implies(z3.And(mem(s, ll), self.defined(ll)),
                       g(s) != Pairs.nil))
        E.templates.append(pointwise(VFS, Pairs, d, ll))
        E.templates.append(self.grouped)
        E.split_hooks.append(self.split)
        E.set_hooks.append(lambda E, v, s, at: at(P.tt)
                           if v.t.k == TStr else None)
        self.L = E.const('loss_types', Strs)
        self.x = None

    def split(self, E, seq, p, x, rest):
        if seq.e.eq(self.L.e):
            self.x = x
            self.px = Strs.rawsnoc(p, x)
            E.reg(Recs, self.recs(x))
            E.assume(self.P.at_x(self.recs(x)))
        elif seq.t == Strs:
            E.reg(Pairs, self.g(self.px))

    def grouped(self, E, seq, L0, node):
        out = []
        if seq is None or seq.t != Strs:
            return out
        outer = seq.e.eq(self.L.e)
        has, val = (lambda m: z3.Select(GROUPED.has(m), self.P.tt),
                    lambda m: z3.Select(GROUPED.val(m), self.P.tt))
        if outer:
            out.append(('no offender in the files so far', lambda p, L:
                        OStr.is_none(self.bad(p))))
        for n, (lt, e) in L0.items():
            if lt != GROUPED:
                continue
            if outer:
                out += [
                    ('%s has the taxonomies so far' % n, lambda p, L, n=n:
                     has(L[n][1]) == (self.g(p) != Pairs.nil)),
                    ('%s has the functions so far' % n, lambda p, L, n=n:
                     z3.Implies(has(L[n][1]), val(L[n][1]) == self.g(p)))]
            elif self.x is not None:
                px = self.px
                out += [
                    ('%s has the taxonomy' % n, lambda p, L, n=n, e=e:
                     has(L[n][1]) == z3.If(self.mem(p, self.P.tt), T,
                                           has(e))),
                    ('%s has the function' % n, lambda p, L, n=n, e=e, px=px:
                     z3.Implies(has(L[n][1]), val(L[n][1]) == z3.If(
                         self.mem(p, self.P.tt), self.g(px), val(e))))]
        return out


def t_grouped(E, retro):
    """get_taxonomy_vfs: for every taxonomy exactly the loss types whose
    file defines it, each with its function; each taxonomy once"""
    G = Groups(E, retro)
    P = G.P
    Y = TSeq(TStr)
    L = G.L.e

    def log(E, seq, L0, node):
        if seq is None or seq.t != Strs or seq.e.eq(L):
            return []
        return [('%s: the taxonomies so far' % n, lambda p, L, n=n:
                 L[n][1] == p) for n, (lt, e) in L0.items() if lt == Y]
    E.templates.append(log)

    def run():
        given = E.new_list(Sym(Y, Y.nil))
        E.assume(G.lem(L))
        E.assume(G.any(L))
        good = E.branch(OStr.is_none(G.bad(L)))
        inputs = sym_dict(E, G.INP)

        def body(y):
            E.prove('a pair', isinstance(y, tuple) and len(y) == 2)
            tax = E.z(y[0], TStr)
            E.call(E.getattr(given, 'append'), [y[0]])
            if not E.branch(tax == P.tt):
                return
            d = E.z(y[1], VFS)
            E.prove('exactly the loss types whose file defines the taxonomy',
                    z3.Select(VFS.has(d), G.ll) == z3.And(
                        G.mem(L, G.ll), G.defined(G.ll)))
            E.prove('each with the function of that file', z3.Implies(
                z3.Select(VFS.has(d), G.ll), z3.Select(VFS.val(d), G.ll) ==
                G.vf(G.ll)))
        r, exc = attempt(E, lambda: consume(E, E.call(E.lookup_path(
            'riskloaders.get_taxonomy_vfs'),
            [inputs, E.new_list(G.L)], {'retrofitted': True} if retro else {}),
            body))
        if exc is not None:
            E.prove('refused only for an offending file', not good)
            E.prove('refused with a ValueError', E.exc_matches(
                exc.value, E.builtins['ValueError']))
            P.named(exc, G.bad(L))
            reach(E, 'refused')
            return
        E.prove('an offending file is refused', good)
        E.prove('a taxonomy is given if it has a loss type', z3.Implies(
            z3.And(G.mem(L, G.ll), G.defined(G.ll)),
            G.mem(E.z(given, Y), P.tt)))
        reach(E, 'accepted')
    return run


Flow = TObj('Workflow')
Model = TObj('RiskModel', attrs={'taxonomy': TStr, 'workflow': Flow})
MODELS = TMap(TStr, Model)
WF = 'openquake.risklib.workflows.'


def t_models(E, retro):
    """get_risk_models: a risk model per taxonomy with its functions"""
    G = Groups(E, retro)
    P, tt, ll = G.P, G.P.tt, G.ll
    L = G.L.e
    scen = z3.Function('scenario', VFS.sort(), z3.BoolSort(), Flow.sort())
    vfsof = z3.Function('functions of', Flow.sort(), VFS.sort())
    insof = z3.Function('insured', Flow.sort(), z3.BoolSort())
    modelf = z3.Function('risk model', S, Flow.sort(), Model.sort())
    mtax, mflow = Model.attrfn('taxonomy'), Model.attrfn('workflow')
    insured = E.const('insured', TBool)

    def args(a, k, *names):
        d = dict(zip(names, a), **k)
        if set(d) != set(names):
            raise Unsupported('arguments %s' % sorted(d))
        return [d[n] for n in names]

    def scenario(E, a, k):
        v, i = args(a, k, 'vulnerability_functions', 'insured_losses')
        if E.typ(v) != VFS:
            raise Unsupported('the functions of a scenario')
        v, i = E.z(v, VFS, 'deep'), E.z(i, TBool)
        w = scen(v, i)
        E.assume(z3.And(vfsof(w) == v, insof(w) == i))
        return Sym(Flow, w)

    def model(E, a, k):
        t, w = args(a, k, 'taxonomy', 'workflow')
        t, w = E.z(t, TStr), E.z(w, Flow)
        m = modelf(t, w)
        E.assume(z3.And(mtax(m) == t, mflow(m) == w))
        return Sym(Model, m)
    E.externals[WF + 'Scenario'] = scenario
    E.externals[WF + 'RiskModel'] = model
    E.modules.pop('openquake.commonlib.riskloaders', None)

    def right(m):
        v = vfsof(mflow(m))
        return [mtax(m) == tt, insof(mflow(m)) == insured.e,
                z3.Select(VFS.has(v), ll) == z3.And(
                    G.mem(L, ll), G.defined(ll)),
                z3.Implies(z3.Select(VFS.has(v), ll),
                           z3.Select(VFS.val(v), ll) == G.vf(ll))]

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != Strs or seq.e.eq(L):
            return []
        out = []
        for n, (lt, e) in L0.items():
            if lt == MODELS:
                out += [
                    ('%s has the taxonomies so far' % n, lambda p, L, n=n:
                     z3.Select(MODELS.has(L[n][1]), tt) == G.mem(p, tt)),
                    ('%s has the right model' % n, lambda p, L, n=n:
                     z3.Implies(G.mem(p, tt), z3.And(*right(z3.Select(
                         MODELS.val(L[n][1]), tt)))))]
        return out
    E.templates.append(tmpl)

    def run():
        E.assume(G.lem(L))
        E.assume(G.any(L))
        good = E.branch(OStr.is_none(G.bad(L)))
        r, exc = attempt(E, lambda: E.call(E.lookup_path(
            'riskloaders.get_risk_models'),
            [sym_dict(E, G.INP), E.new_list(G.L)],
            dict({'insured_losses': insured}, **(
                {'retrofitted': True} if retro else {}))))
        if exc is not None:
            E.prove('refused only for an offending file', not good)
            E.prove('refused with a ValueError', E.exc_matches(
                exc.value, E.builtins['ValueError']))
            P.named(exc, G.bad(L))
            reach(E, 'refused')
            return
        E.prove('an offending file is refused', good)
        m = E.z(r, MODELS)
        has = z3.Select(MODELS.has(m), tt)
        E.prove('a model for exactly the taxonomies with a function',
                has == (G.g(L) != Pairs.nil))
        for text, f in zip(
                ('the model of the taxonomy', 'insured losses as asked',
                 'exactly the loss types whose file defines the taxonomy',
                 'each with the function of that file'),
                right(z3.Select(MODELS.val(m), tt))):
            E.prove(text, z3.Implies(has, f))
        reach(E, 'accepted')
    return run


def message(E, exc):
    a = E.getattr(exc.value, 'args')
    return E.z(a[0], TStr)


FF = TObj('FragilityFunction')
FFs = TSeq(FF)
Reals = TSeq(TReal)
Poes = TSeq(Reals)
Mean = TTup(TReal, TReal)
Means = TSeq(Mean)
IML = {'IMT': TStr, 'imls': Reals}


def iml_item(E, o, a, *r):
    k = a if isinstance(a, str) else a[0]
    if k not in IML:
        E.raise_('KeyError', k)
    return E.getattr(o, k)


Iml = TObj('Iml', attrs=dict(IML), hooks={'getitem': iml_item})
OLimit = TOpt(TReal)
ffd = z3.Function('discrete function', Reals.sort(), Reals.sort(),
                  z3.RealSort(), FF.sort())
ffc = z3.Function('continuous function', z3.RealSort(), z3.RealSort(),
                  FF.sort())
SCI = 'openquake.risklib.scientific.'


def named_args(a, k, *names):
    d = dict(zip(names, a), **k)
    if set(d) != set(names) or len(a) > len(names):
        raise Unsupported('arguments %s' % sorted(d))
    return [d[n] for n in names]


def t_fragility(E, discrete):
    """get_damage_states_and_risk_models: the states, and the functions of
    every taxonomy state by state"""
    Params = Poes if discrete else Means
    Item = TTup(TStr, Iml, Params, OLimit)
    Items = TSeq(Item)
    FMAP, IMTS = TMap(TStr, FFs), TMap(TStr, TStr)
    tt = z3.Const('tt', S)
    tax, iml, par, lim = (lambda x, i=i: Item.get(x, i) for i in range(4))
    imls = lambda x: Iml.attrfn('imls')(iml(x))
    first = lambda x: E.nthfold(Reals)(imls(x), z3.IntVal(0))

    # the functions of an item, as a fold over its parameters
    def one(y, x):
        if not discrete:
            return ffc(Mean.get(y, 0), Mean.get(y, 1))
        lead = lambda v, s: E.cat(Reals, Reals.rawsnoc(Reals.nil, v), s)
        return z3.If(
            OLimit.is_none(lim(x)), ffd(imls(x), y, first(x)),
            ffd(lead(OLimit.val(lim(x)), imls(x)), lead(z3.RealVal(0), y),
                OLimit.val(lim(x))))
    funs = E.add_fold(Fold(
        'functions by state', Params.el, FFs, FFs.nil, lambda a, y, p, x:
        FFs.rawsnoc(a, one(y, x)), params=[Item], auto=False))
    allf = E.add_fold(Fold(
        'functions by taxonomy', Item, FMAP, empty(FMAP), lambda a, x, p:
        put(FMAP, a, tax(x), funs(par(x), x))))
    imts = E.add_fold(Fold(
        'measures by taxonomy', Item, IMTS, empty(IMTS), lambda a, x, p:
        put(IMTS, a, tax(x), Iml.attrfn('IMT')(iml(x)))))
    seen = E.add_fold(Fold(
        'taxonomies', Item, TSet(TStr), z3.K(S, F), lambda a, x, p:
        z3.Store(a, tax(x), T)))
    distinct = E.add_fold(Fold(
        'distinct taxonomies', Item, TBool, T, lambda a, x, p: z3.And(
            a, z3.Not(z3.Select(seen(p), tax(x))))))
    full = E.add_fold(Fold(
        'some levels', Item, TBool, T, lambda a, x, p: z3.And(
            a, imls(x) != Reals.nil)))
    lem = E.induct('both have the taxonomies', Items, lambda s: z3.And(
        FMAP.has(allf(s)) == seen(s), IMTS.has(imts(s)) == seen(s)))
    I = E.const('items', Items)
    LS = E.const('limit_states', Strs)
    mem = E.memfold(Strs)
    cur = {}

    def at(E, seq, p, x, rest):
        if seq.t == Items:
            cur['x'] = x
            funs.insts = [(x,)]
            E.assume(lem(p))
            E.reg(Params, par(x))
    E.split_hooks.append(at)
    E.set_hooks.append(lambda E, v, s, at: at(tt) if v.t.k == TStr else None)
    E.templates.append(pointwise(FMAP, Items, allf, tt))
    E.templates.append(pointwise(IMTS, Items, imts, tt))
    damage = z3.Function('damage workflow', FFs.sort(), S, Flow.sort())
    modelf = z3.Function('risk model', S, Flow.sort(), Model.sort())

    def tmpl(E, seq, L0, node):
        out = []
        if seq is None:
            return out
        for n, (lt, e) in L0.items():
            if seq.t == Items and lt in (FMAP, IMTS):
                out.append(('%s has the taxonomies' % n, lambda p, L, n=n,
                            lt=lt: lt.has(L[n][1]) == seen(p)))
            if seq.t == Params and lt == FFs and 'x' in cur:
                out.append(('%s: the functions so far' % n, lambda p, L, n=n,
                            x=cur['x']: L[n][1] == funs(p, x)))
            if seq.t == Params and lt == FMAP and 'x' in cur:
                # the functions are appended in place
                out += [
                    ('%s: no other taxonomy' % n, lambda p, L, n=n, e=e:
                     FMAP.has(L[n][1]) == FMAP.has(e)),
                    ('%s: the functions of the taxonomy so far' % n,
                     lambda p, L, n=n, e=e, x=cur['x']: FMAP.val(
                         L[n][1]) == z3.Store(FMAP.val(e), tax(x),
                                              funs(p, x)))]
            if seq.t == Strs and lt == MODELS:
                out += [
                    ('%s has the taxonomies so far' % n, lambda p, L, n=n:
                     z3.Select(MODELS.has(L[n][1]), tt) == mem(p, tt)),
                    ('%s has the right model' % n, lambda p, L, n=n:
                     z3.Implies(mem(p, tt), z3.Select(MODELS.val(
                         L[n][1]), tt) == right()))]
        return out
    E.templates.append(tmpl)

    def right():
        return modelf(tt, damage(z3.Select(FMAP.val(allf(I.e)), tt),
                                 z3.Select(IMTS.val(imts(I.e)), tt)))

    def discretef(E, a, k):
        l, p, n = named_args(a, k, 'imls', 'poes', 'no_damage_limit')
        return Sym(FF, ffd(E.z(l, Reals), E.z(p, Reals), E.z(n, TReal)))

    def contf(E, a, k):
        m, s = named_args(a, k, 'mean', 'stddev')
        return Sym(FF, ffc(E.z(m, TReal), E.z(s, TReal)))
    E.externals[SCI + 'FragilityFunctionDiscrete'] = discretef
    E.externals[SCI + 'FragilityFunctionContinuous'] = contf

    def damagef(E, a, k):
        d, = named_args(a, k, 'fragility_functions')
        d = E.h(d).d
        E.prove('functions for damage only', set(d) == {'damage'})
        return Sym(Flow, damage(E.z(d['damage'], FFs, 'deep'),
                                E.z(E.getattr(d['damage'], 'imt'), TStr)))
    E.externals[WF + 'Damage'] = damagef
    E.externals[WF + 'RiskModel'] = lambda E, a, k: (
        lambda t, w: Sym(Model, modelf(E.z(t, TStr), E.z(w, Flow))))(
            *named_args(a, k, 'taxonomy', 'workflow'))
    state = {}

    def nxt(E, o, a, k):
        n = E.getattr(state['n'], 'taken')
        E.setattr(state['n'], 'taken', n + 1)
        if n:
            raise Unsupported('next item of the parser')
        return ('discrete' if discrete else 'continuous', E.new_list(LS))

    def rest(E, o):
        if E.getattr(state['n'], 'taken') != 1:
            raise Unsupported('the parser is consumed from the start')
        E.setattr(state['n'], 'taken', 2)
        return E.new_list(I)
    Iter = TObj('FragilityIter', meths={'next': nxt}, hooks={
        'iter': rest, 'iterator': lambda E, o: o})

    def parser(E, a, k):
        c, = named_args(a, k, 'content')
        E.prove('the given content is parsed', E.eq(c, 'content'))
        return E.const('parser', TObj('FragilityParser', hooks={
            'iterator': lambda E, o: E.const('iterator', Iter)}))
    E.externals['openquake.nrmllib.risk.parsers.FragilityModelParser'] = \
        parser
    E.modules.pop('openquake.commonlib.riskloaders', None)

    def run():
        state['n'] = E.alloc(HInst(OBJECT, {'taken': 0}))
        E.assume(distinct(I.e))
        E.assume(full(I.e))
        E.assume(lem(I.e))
        states, models = E.unpack(E.call(E.lookup_path(
            'riskloaders.get_damage_states_and_risk_models'), ['content']), 2)
        E.prove('no damage first, then the limit states in order', E.z(
            states, Strs) == E.cat(Strs, Strs.rawsnoc(
                Strs.nil, z3.StringVal('no_damage')), LS.e))
        m = E.z(models, MODELS)
        has = z3.Select(MODELS.has(m), tt)
        E.prove('a model for exactly the taxonomies of the file',
                has == z3.Select(seen(I.e), tt))
        E.prove('one function per limit state in order, with the measure of '
                'the taxonomy', z3.Implies(has, z3.Select(
                    MODELS.val(m), tt) == right()))
        reach(E, 'end')
    return run


TASKS = {
    'C21': [Task('the functions of a file', t_file, ['riskloaders'],
                 covers=['accepted', 'refused']),
            Task('by taxonomy and loss type', lambda E: t_grouped(E, False),
                 ['riskloaders'], covers=['accepted', 'refused']),
            Task('risk models', lambda E: t_models(E, False),
                 ['riskloaders'], covers=['accepted', 'refused']),
            Task('risk models, retrofitted', lambda E: t_models(E, True),
                 ['riskloaders'], covers=['accepted', 'refused']),
            Task('by taxonomy and loss type, retrofitted', lambda E:
                 t_grouped(E, True), ['riskloaders'],
                 covers=['accepted', 'refused'])],
    'C22': [Task('discrete', lambda E: t_fragility(E, True),
                 ['riskloaders'], covers=['end']),
            Task('continuous', lambda E: t_fragility(E, False),
                 ['riskloaders'], covers=['end'])],
    }
