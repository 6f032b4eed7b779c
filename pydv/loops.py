"""Loops: concrete unrolling, cutting by inductive invariants, and the
container operations (mixed into Engine)."""
import z3

from .types import (TInt, TReal, TBool, TStr, TFP, TNone, TBot, TObj, TSeq,
                    TTup, TStruct, TOpt, TMap, TSet, join, JoinError)
from .engine import (Unsupported, PathEnd, PyExc, ReturnEx, BreakEx,
                     ContinueEx, Through, Sym, Ref, Poison, Maybe, HList,
                     HDict, HView, HSet, HInst, HGen, HZip, FuncV, BoundV, Builtin,
                     Descr, ClassV, ModuleV, ExtV, TermV, UFun, Fold,
                     seq_parts)

LEAVE = (BreakEx, ReturnEx, PyExc, Through)


import os
DEBUG = os.environ.get('PYDV_DEBUG')


class Aliased(Unsupported):
    pass


class Retype(Exception):
    """a symbolic container needs a wider element type (analysis only)"""
    def __init__(self, oid, t):
        Exception.__init__(self, 'retype')
        self.oid, self.t = oid, t


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Sym):
        return a.t == b.t and a.e.eq(b.e)
    if isinstance(a, (Ref, ExtV)):
        return a == b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool)):
        return a == b
    if isinstance(a, Poison):
        return True
    if isinstance(a, Maybe):
        return same(a.value, b.value) and (
            a.flag is b.flag or a.flag.eq(b.flag))
    if isinstance(a, BoundV):
        return same(a.self_, b.self_) and same(a.func, b.func)
    if isinstance(a, TermV):
        return a.fn == b.fn and same(a.args, b.args) and \
            set(a.kwargs) == set(b.kwargs) and \
            all(same(a.kwargs[k], b.kwargs[k]) for k in a.kwargs)
    try:
        return a == b
    except Exception:
        return False


class Loops(object):
    # ------------------------------------------------------------- driver
    def s_For(self, s, fr):
        it = self.eval(s['iter'], fr)
        self.loop_over(
            s, fr, it, lambda x: self.assign(s['target'], x, fr),
            lambda: self.exec_block(s['body'], fr),
            lambda: self.exec_block(s['orelse'], fr))

    def loop_over(self, node, fr, it, bind, body, orelse=None):
        if isinstance(it, Sym) and isinstance(it.t, TOpt):
            it = self.unopt(it)
        if isinstance(it, Ref):
            h = self.h(it)
            if isinstance(h, HGen) and h.content is None:
                return self.loop_gen(h, bind, body, orelse)
            if isinstance(h, HZip):
                return self.loop_zip(node, fr, h, bind, body, orelse)
            if isinstance(h, HInst) and not self.ntfields(h):
                m, _ = h.cls.lookup('__iter__')
                if m is not None:
                    r = self.call(self.getattr(it, '__iter__'), [], {})
                    if r != it:
                        return self.loop_over(node, fr, r, bind, body,
                                              orelse)
        c = self.content(it)
        parts = self.flatten(c)
        try:
            for kind, v in parts:
                if kind == 'el':
                    try:
                        bind(v)
                        body()
                    except ContinueEx:
                        pass
                elif self.origin(v) is not None:
                    self.loop_fused(fr, v, bind, body)
                elif len(parts) == 1 and self.mate(v) is not None:
                    return self.loop_zip(
                        node, fr, HZip([v], lambda xs: xs[0]), bind, body,
                        orelse)
                else:
                    self.cut(node, fr, v, bind, body)
        except BreakEx:
            return
        if isinstance(it, Ref) and isinstance(c, list) and \
                isinstance(self.h(it), HList):
            c2 = self.h(it).content
            if not isinstance(c2, list) or len(c2) != len(parts):
                raise Unsupported('a list is resized while iterated over')
        if orelse:
            orelse()

    def mate(self, s):
        """the sequence of the same length that a contract speaks of"""
        for e, b in self.mates:
            if s.e.eq(e) and self.valid(self.len(s.t, s.e) == self.len(
                    b.t, b.e))[0] == 'proved':
                return b
        return None

    def flatten(self, c):
        """content -> [('el', value) | ('seq', Sym)]"""
        if isinstance(c, list):
            return [('el', x) for x in c]
        t = c.t
        out = []

        def rec(e):
            k, parts = seq_parts(t, e)
            if k == 'nil':
                return
            if k == 'snoc':
                rec(parts[0])
                out.append(('el', self.val(t.el, parts[1])))
            elif k == 'cat':
                rec(parts[0])
                rec(parts[1])
            elif k == 'ite':
                rec(parts[1] if self.branch(parts[0]) else parts[2])
            else:
                got = self.known(t, e)
                if got is None:
                    out.append(('seq', Sym(t, e)))
                elif isinstance(got, int):
                    s = Sym(t, e)
                    for _ in range(got):
                        x, s = self.uncons(s)
                        out.append(('el', x))
                else:
                    rec(got)
        rec(c.e)
        return out

    def known(self, t, e):
        """the path condition says which elements e has, or how many"""
        ln = t.lenfn()
        for f in self.pc:
            if not z3.is_eq(f):
                continue
            a, b = f.arg(0), f.arg(1)
            for a, b in ((a, b), (b, a)):
                if a.eq(e):
                    k, parts = seq_parts(t, b)
                    while k == 'snoc':
                        k, parts = seq_parts(t, parts[0])
                    if k == 'nil':
                        return b
                elif z3.is_int_value(b) and z3.is_app(a) and \
                        a.decl().eq(ln) and a.arg(0).eq(e) and \
                        0 <= b.as_long() <= 4:
                    return b.as_long()
        return None

    def loop_gen(self, h, bind, body, orelse):
        token = object()

        def emit(x):
            try:
                bind(x)
                body()
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyExc) as e:
                raise Through(token, e)
        h.content = []
        try:
            h.thunk(emit)
        except Through as t:
            if t.token is not token:
                raise
            if isinstance(t.exc, BreakEx):
                return
            raise t.exc
        if orelse:
            orelse()

    def flat_zip(self, h):
        """zip(zip(a, b), c): one zip of a, b and c"""
        srcs, spans = [], []
        for s in h.sources:
            g = self.h(s) if isinstance(s, Ref) else None
            if isinstance(g, HZip):
                s1, mk = self.flat_zip(g)
                spans.append((len(srcs), len(srcs) + len(s1), mk))
                srcs += s1
            else:
                spans.append((len(srcs), None, None))
                srcs.append(s)
        if all(b is None for _, b, _ in spans):
            return srcs, h.make
        return srcs, lambda xs: h.make([
            xs[a] if b is None else mk(xs[a:b]) for a, b, mk in spans])

    def loop_zip(self, node, fr, h, bind, body, orelse):
        srcs = []
        sources, mk = self.flat_zip(h)
        for s in sources:
            if isinstance(s, tuple) and s and s[0] == 'count':
                srcs.append(s)
            elif isinstance(s, tuple) and s and s[0] == 'range':
                srcs.append(s)
            else:
                c = self.content(s)
                if isinstance(c, Sym):
                    fl = self.flatten(c)
                    if all(k == 'el' for k, _ in fl):
                        c = [v for _, v in fl]
                srcs.append(c)
        conc = [s for s in srcs if isinstance(s, list)]
        syms = [s for s in srcs if isinstance(s, Sym)]

        # the lengths of the ranges
        ranges = [z3.If(n < 0, z3.IntVal(0), n) for n in [
            self.z(s[2], TInt) for s in srcs
            if isinstance(s, tuple) and s[0] == 'range']]

        def item(i, s, k):
            if isinstance(s, tuple):
                return self.arith('Add', s[1], k)
            if isinstance(s, list):
                return s[i]
            return self.nth(s, k if not isinstance(k, int)
                            else z3.IntVal(k))
        try:
            if conc:
                n = min(len(s) for s in conc)
                for i in range(n):
                    for l in [self.len(s.t, s.e) for s in syms] + ranges:
                        if not self.branch(l > i):
                            raise StopZip()
                    try:
                        bind(mk([item(i, s, i) for s in srcs]))
                        body()
                    except ContinueEx:
                        pass
                if orelse:
                    orelse()
                return
            if not syms:
                rng = [s for s in srcs if s[0] == 'range']
                if not rng:
                    raise Unsupported('loop over an infinite iterator')
                n = self.z(rng[0][2], TInt)
                for s in rng[1:]:
                    m = self.z(s[2], TInt)
                    n = z3.simplify(z3.If(m < n, m, n))
                base = self.seq_of_len(n)
                if base is not None:
                    base = self.mate(base) or base
                if base is None:
                    t = TSeq(TNone)
                    base = self.fresh('range', t)
                    self.assume(self.len(t, base.e) == z3.If(n < 0, 0, n))
            else:
                # any of them: the code reads objects more than texts
                base = ([s for s in syms if isinstance(
                    s.t.el, (TObj, TTup))] or syms)[0]
                for e in self.zip_bases:
                    # the one a contract prefers
                    base = ([s for s in syms if s.e.eq(e)] or [base])[0]
                lens = [self.len(s.t, s.e) for s in syms] + ranges
                for l in lens[1:]:
                    st, _ = self.valid(l == lens[0])
                    if st != 'proved':
                        # the shortest one decides
                        n = lens[0]
                        for l in lens[1:]:
                            n = z3.If(l < n, l, n)
                        base = self.fresh('zip', TSeq(TNone))
                        self.assume(self.len(base.t, base.e) == n)
                        break
                else:
                    base = self.mate(base) or base
            parts = self.flatten(base)
            if len(parts) != 1 or parts[0][0] == 'el':
                if syms != [base]:
                    raise Unsupported('zip over a composite sequence')
                # a sequence made of parts, with counters
                k = self.val(TInt, z3.IntVal(0))
                for kind, x in parts:
                    def bind3(x, k=k, inside=(kind == 'seq')):
                        if inside:
                            k = self.arith('Add', k, self.val(TInt, self.len(
                                base.t, self.loop_p[-1])))
                        bind(mk([x if s is base else
                                 self.arith('Add', s[1], k) for s in srcs]))
                    if kind == 'seq':
                        self.cut(node, fr, x, bind3, body)
                        n = self.val(TInt, self.len(x.t, x.e))
                    else:
                        try:
                            bind3(x)
                            body()
                        except ContinueEx:
                            pass
                        n = 1
                    k = self.arith('Add', k, n)
                if orelse:
                    orelse()
                return

            def bind2(x):
                p = self.loop_p[-1]
                k = self.val(TInt, self.len(base.t, p))
                vals = []
                for s in srcs:
                    if s is base:
                        vals.append(x)
                    elif isinstance(s, tuple):
                        vals.append(self.arith('Add', s[1], k))
                    else:
                        vals.append(self.nth(s, self.z(k, TInt)))
                bind(mk(vals))
            ntempl = len(self.templates)
            nhooks = len(self.split_hooks)
            if not any(s is base for s in syms) and base.t.el is not TNone:
                def at(E, seq, p, x, rest):
                    if seq is not None and seq.t == base.t and \
                            seq.e.eq(base.e):
                        self.nth_lemma(base.t)
                        self.assume(self.nthfold(base.t)(
                            base.e, self.len(base.t, p)) == x)
                self.split_hooks.append(at)
            for s in syms:
                if s is not base and s.t == base.t:
                    self.templates.append(self.prefix_template(s))
            try:
                self.cut(node, fr, base, bind2, body)
            finally:
                del self.templates[ntempl:]
                del self.split_hooks[nhooks:]
        except BreakEx:
            return
        except StopZip:
            pass
        if orelse:
            orelse()

    def seq_of_len(self, n):
        """the sequence s if the term n is len(s)"""
        n = z3.simplify(n)
        if z3.is_app(n) and n.num_args() == 1:
            t = self.seqlens.get(n.decl().get_id())
            if t is not None:
                return Sym(t, n.arg(0))
        return None

    # --------------------------------------------------------------- nth
    def nthfold(self, t):
        if not hasattr(t, '_nth'):
            key = 'nth#' + t.name
            f = self.MEM.get(key)
            if f is None:
                f = self.MEM[key] = Fold(
                    'nth_' + t.el.name, t.el, t.el,
                    lambda i: self.default_of(t.el),
                    lambda acc, x, p, i: z3.If(self.len(t, p) == i, x, acc),
                    params=[TInt], auto=False)
        return self.MEM['nth#' + t.name]

    def takefold(self, t):
        key = 'take#' + t.name
        if key not in self.MEM:
            self.MEM[key] = Fold(
                'take_' + t.el.name, t.el, t, lambda k: t.nil,
                lambda acc, x, p, k: z3.If(self.len(t, p) < k,
                                           t.rawsnoc(acc, x), acc),
                params=[TInt], auto=False)
        f = self.MEM[key]
        if key not in self.lemmas:
            def lemma():
                k = z3.Const('k_take', z3.IntSort())
                nth = self.nthfold(t)
                self.induct(
                    'take(s, k) and s[k] [%s]' % t.el.name, t,
                    lambda s: z3.And(
                        z3.ForAll([k], z3.Implies(
                            k >= self.len(t, s), f(s, k) == s)),
                        z3.ForAll([k], z3.Implies(k <= 0, f(s, k) == t.nil)),
                        z3.ForAll([k], z3.Implies(
                            z3.And(0 <= k, k < self.len(t, s)),
                            f(s, k + 1) == t.rawsnoc(f(s, k), nth(s, k))))))
            self.lemmas[key] = lemma
        self.nth_lemma(t)
        return f

    def nth_lemma(self, t):
        """s = p ++ [x] ++ rest gives s[len p] = x"""
        def lemma():
            nth = self.nthfold(t)
            x0 = z3.Const('x_take', t.el.sort())
            p0 = self.const('p_take', t).e
            n0 = self.len(t, p0)
            self.induct(
                'nth of a concatenation [%s]' % t.el.name, t,
                lambda s: nth(self.cat(t, t.rawsnoc(p0, x0), s), n0) == x0)
        self.lemmas.setdefault('nth_cat#' + t.name, lemma)

    def prefix_template(self, other):
        """candidate for a loop zipping two sequences: the part read so far
        is a prefix of the other one"""
        t = other.t
        take, nth = self.takefold(t), self.nthfold(t)

        def templ(E, seq, L0, node):
            if seq is None or seq.t != t:
                return []
            return [('prefix of both', lambda p, L: p == take(
                other.e, self.len(t, p)))]

        def at(E, seq, p, x, rest):
            if seq.t != t:
                return
            k = self.len(t, p)
            n = self.len(t, other.e)
            self.assume(nth(seq.e, k) == x)
            self.assume(z3.Implies(k < n, take(other.e, k + 1) == t.rawsnoc(
                take(other.e, k), nth(other.e, k))))
        self.split_hooks.append(at)
        n = self.len(t, other.e)
        self.assume(take(other.e, n) == other.e)
        self.assume(take(other.e, z3.IntVal(0)) == t.nil)
        return templ

    def nth(self, s, i):
        return self.val(s.t.el, self.nthfold(s.t)(s.e, i))

    def unfold_last(self, t, e):
        """e is not empty: e = init ++ [last], also for the spec functions"""
        i, l = z3.simplify(t.init(e)), z3.simplify(t.last(e))
        self.reg(t, i)
        self.assume(e == t.rawsnoc(i, l))
        self.assume(self.len(t, e) == self.len(t, i) + 1)
        for f, ps in self.fold_insts(t):
            self.assume(f(e, *ps) == f(t.rawsnoc(i, l), *ps))
        return i, l

    def revfold(self, t):
        key = 'rev#' + t.name
        if key not in self.MEM:
            self.MEM[key] = Fold(
                'rev_' + t.el.name, t.el, t, t.nil, lambda acc, x, p:
                self.cat(t, t.rawsnoc(t.nil, x), acc), auto=False)
        return self.MEM[key]

    def headfold(self, t):
        key = 'head#' + t.name
        if key not in self.MEM:
            f = self.MEM[key] = Fold(
                'head_' + t.el.name, t.el, t.el, self.default_of(t.el),
                lambda acc, x, p: z3.If(p == t.nil, x, acc),
                auto=False)
        return self.MEM[key]

    # -------------------------------------------------------------- while
    def s_While(self, s, fr):
        # bounded unrolling while the test is concrete; cut otherwise
        n, pos0 = 0, self.pos
        while True:
            v = self.eval(s['test'], fr)
            e = self.truth_e(v) if not (
                isinstance(v, Sym) and isinstance(v.t, TOpt)) else True
            sym = not isinstance(e, bool) or isinstance(v, Sym)
            if sym or n > 50 or s['test']['_'] in ('Num', 'Name') and \
                    n > 0 and self.pos > pos0 or self.while_cut:
                break
            if not self.truth(v):
                self.exec_block(s['orelse'], fr)
                return
            try:
                self.exec_block(s['body'], fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
            n += 1

        def step():
            if not self.truth(self.eval(s['test'], fr)):
                raise PathEnd('while exit')
            self.exec_block(s['body'], fr)
        try:
            self.cut(s, fr, None, None, step)
        except BreakEx:
            return
        if self.truth(self.eval(s['test'], fr)):
            raise PathEnd('the exit of a while loop has a false test')
        self.exec_block(s['orelse'], fr)

    # ---------------------------------------------------------------- cut
    def cut(self, node, fr, seq, bind, body):
        key = (self.expl_id, tuple(self.trace[:self.pos]), self.counter,
               id(node))
        where = '%s:%s' % (fr.module.name.split('.')[-1],
                           node.get('lineno') or
                           (node.get('target') or {}).get('lineno') or
                           self.line[1])

        def step(x):
            if bind is not None:
                bind(x)
            body()
        info = self.loopinfo.get(key)
        if info is None:
            info = self.analyse(seq, step, where, node)
            self.loopinfo[key] = info
        shapes, cands, leaves0, made = info
        L0 = leaves0
        counter0 = self.counter
        # initial
        p0 = seq.t.nil if seq is not None else None
        for c in cands:
            self.prove('loop %s: invariant %s holds initially' %
                       (where, c[0]), c[1](p0, L0))
        if cands and self.record:
            self.loop_invs.append((where, [c[0] for c in cands]))
        if self.choose(2) == 0:
            L = self.havoc(shapes, node)
            p = seq.e if seq is not None else None
            for c in cands:
                self.assume(c[1](p, L))
            for path, F, ps in made:
                self.set_origin(L[path], F, p, ps)
            return
        L = self.havoc(shapes, node)
        p = x = None
        if seq is not None:
            p, x, rest = self.split(seq)
        for c in cands:
            self.assume(c[1](p, L))
        if not self.feasible():
            raise PathEnd('infeasible')
        self.loop_p.append(p)
        try:
            try:
                step(x)
            except ContinueEx:
                pass
        finally:
            self.loop_p.pop()
        L2 = self.leafterms(shapes)
        p2 = seq.t.rawsnoc(p, self.z(x, seq.t.el)) if seq is not None \
            else None
        for c in cands:
            self.prove('loop %s: invariant %s is preserved' % (where, c[0]),
                       c[1](p2, L2))
        if self.prove_variant is not None:
            self.prove_variant(self, node, L, L2)
        raise PathEnd('loop body')

    def split(self, seq):
        """fresh p, x, rest with seq == p ++ [x] ++ rest"""
        t = seq.t
        p = self.fresh('p', t)
        x = self.fresh('x', t.el)
        rest = self.fresh('rest', t)
        px = t.rawsnoc(p.e, x.e)
        self.assume(seq.e != t.nil)
        self.assume(self.len(t, seq.e) == self.len(t, p.e) + 1 +
                    self.len(t, rest.e))
        for f, ps in self.fold_insts(t):
            if f.hom_ok:
                self.assume(f(seq.e, *ps) ==
                            f.hom(f(px, *ps), f(rest.e, *ps)))
            elif f.mono == 'and':
                self.assume(z3.Implies(f(seq.e, *ps), f(px, *ps)))
            elif f.mono == 'or':
                self.assume(z3.Implies(f(px, *ps), f(seq.e, *ps)))
        for s in self.split_hooks:
            s(self, seq, p.e, x.e, rest.e)
        return p.e, self.val(t.el, x.e), rest.e

    def fold_insts(self, t):
        out = []
        for f in self.folds.get(t.name, []):
            if f.params:
                for ps in getattr(f, 'insts', []):
                    out.append((f, ps))
            else:
                out.append((f, ()))
        return out

    # ------------------------------------------------------------ analysis
    def analyse(self, seq, step, where, node):
        entry = self.st
        shapes = {}
        oldrec = self.record
        for rnd in range(12):
            new = dict(shapes)
            changed = [False]

            def merge(loc, sh):
                if loc in new:
                    j = self.join_shape(new[loc], sh)
                else:
                    j = sh
                if loc not in new or new[loc] != j:
                    new[loc] = j
                    changed[0] = True

            def run():
                self.havoc(shapes, node)
                head = self.st.clone()
                p = x = None
                if seq is not None:
                    p, x, rest = self.split(seq)
                self.loop_p.append(p)
                try:
                    step(x)
                except ContinueEx:
                    pass
                except LEAVE:
                    raise PathEnd('leaves the loop')
                except Retype as r:
                    merge(('list', r.oid), ('seq', r.t))
                    raise PathEnd('retype')
                finally:
                    self.loop_p.pop()
                self.refs = None
                for loc in set(self.diff(head, entry)) | set(shapes):
                    merge(loc, self.shape_at(loc, entry, node))
            self.explore(run, record=False)
            # join with the shapes at entry
            self.refs = None
            for loc in list(new):
                if loc in shapes:
                    continue
                merge(loc, self.shape_at(loc, entry, node))
            shapes = new
            if not changed[0]:
                break
        else:
            raise Unsupported('loop %s: no stable shape' % where)
        shapes = dict((k, shapes[k]) for k in sorted(shapes, key=repr))
        L0 = self.leafterms(shapes, entry=True)
        cands = self.candidates(seq, shapes, L0, node)
        made = self.synthesise(seq, shapes, L0, step, node)
        for path, F, ps in made:
            cands.append(('%s = %s(p)' % (path, F.name),
                          lambda p, L, path=path, F=F, ps=ps:
                          L[path][1] == F(p, *ps)))
        p0 = seq.t.nil if seq is not None else None
        live = []
        for c in cands:
            try:
                e = c[1](p0, L0)
            except (JoinError, z3.Z3Exception):
                continue
            if self.valid(e, self.HOUDINI_MS)[0] == 'proved':
                live.append(c)
        if DEBUG:
            print('loop %s:' % where, {k: (str(v[0])[:60], str(v[1])[:40])
                                        for k, v in L0.items()})
            print('  live at entry:', [c[0] for c in live])
        while live:
            dropped = set()

            def run2():
                if len(dropped) == len(live):
                    raise PathEnd('nothing left')
                L = self.havoc(shapes, node)
                p = x = None
                if seq is not None:
                    p, x, rest = self.split(seq)
                for c in live:
                    self.assume(c[1](p, L))
                self.loop_p.append(p)
                try:
                    step(x)
                except ContinueEx:
                    pass
                except LEAVE:
                    raise PathEnd('leaves the loop')
                finally:
                    self.loop_p.pop()
                L2 = self.leafterms(shapes)
                p2 = seq.t.rawsnoc(p, self.z(x, seq.t.el)) \
                    if seq is not None else None
                todo = [c for c in live if c[0] not in dropped]
                es = [c[1](p2, L2) for c in todo]
                st, m = self.valid(z3.And(*es), self.HOUDINI_MS)
                if st == 'proved':
                    return
                rest_ = []
                for c, e in zip(todo, es):
                    if m is not None:
                        try:
                            v = m.eval(e, model_completion=True)
                            if z3.is_false(v):
                                if DEBUG == '2':
                                    print('DROP', c[0], e, m)
                                dropped.add(c[0])
                                continue
                        except z3.Z3Exception:
                            pass
                    rest_.append((c, e))
                for c, e in rest_:
                    st, m = self.valid(e, self.HOUDINI_MS)
                    if st != 'proved':
                        if DEBUG == '2':
                            print('DROP %s (%s)' % (c[0], st), e, m)
                        dropped.add(c[0])
            self.explore(run2, record=False)
            if DEBUG and dropped:
                print('loop %s: dropped %s' % (where, sorted(dropped)))
            if not dropped:
                break
            live = [c for c in live if c[0] not in dropped]
        self.record = oldrec
        names = set(c[0] for c in live)
        good = []
        for path, F, ps in made:
            me = '%s = %s(p)' % (path, F.name)
            if me in names:
                others = [n for n in names
                          if n.startswith(path + ' ') and n != me]
                if not others:
                    good.append((path, F, ps))
                else:       # (a spec function of the contract says it)
                    live = [c for c in live if c[0] != me]
        return shapes, live, L0, good

    # ------------------------------------------- maps and filters in loops
    def free_consts(self, e, seen=None):
        out, todo, seen = {}, [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and \
                        x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.decl().name()] = x
                todo.extend(x.children())
        return out

    def synthesise(self, seq, shapes, L0, step, node):
        """Lists, empty before the loop, to which every iteration appends
        elements given by the current element alone: such a list is F(p) for
        the recursive function F read off the paths of the body.  (F is only
        a candidate: it is kept if the invariant is proved.)"""
        if seq is None or seq.t.el is TNone:
            return []
        paths = [k for k, (t, e0) in L0.items() if isinstance(t, TSeq) and
                 e0 is not None and e0.eq(t.nil) and t.el is not TBot]
        if not paths:
            return []
        n0 = self.counter
        runs = []

        def local(name):
            i = name.rfind('!')
            return i >= 0 and name[i + 1:].isdigit() and \
                int(name[i + 1:]) > n0

        def run():
            L = self.havoc(shapes, node)
            n1 = len(self.pc)
            p, x, rest = self.split(seq)
            old, self.decisions = self.decisions, []
            self.loop_p.append(p)
            try:
                try:
                    step(x)
                except ContinueEx:
                    pass
                except LEAVE:
                    raise PathEnd('leaves the loop')
            finally:
                dec, self.decisions = self.decisions, old
                self.loop_p.pop()
            x0 = self.z(x, seq.t.el)
            L2 = self.leafterms(shapes)
            eqs = []
            for f in self.pc[n1:]:
                if z3.is_eq(f):
                    for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                        if z3.is_const(a) and a.decl().kind() == \
                                z3.Z3_OP_UNINTERPRETED and \
                                local(a.decl().name()):
                            eqs.append((a, b))

            def pure(e):
                for _ in range(6):
                    bad = [n for n, c in self.free_consts(e).items()
                           if local(n) and not c.eq(x0)]
                    if not bad:
                        return e
                    for a, b in eqs:
                        if a.decl().name() in bad and not any(
                                n == a.decl().name() or
                                (local(n) and not c.eq(x0))
                                for n, c in self.free_consts(b).items()):
                            e = z3.substitute(e, (a, b))
                            break
                    else:
                        return None
                return None
            guards = [g for g in (pure(d) for d in dec) if g is not None]
            ups = {}
            for k in paths:
                t = L0[k][0]
                els, e = [], L2[k][1]
                while e is not None and not e.eq(L[k][1]):
                    kind, parts = seq_parts(t, e)
                    if kind != 'snoc':
                        els = None
                        break
                    y = pure(parts[1])
                    if y is None:
                        els = None
                        break
                    els.insert(0, y)
                    e = parts[0]
                ups[k] = els
            runs.append((x0, guards, ups))
        oldrec = self.record
        self.explore(run, record=False)
        self.record = oldrec
        out = []
        for k in paths:
            if not runs or any(u[k] is None for _, _, u in runs) or \
                    len(runs) > 12 or not any(u[k] for _, _, u in runs):
                continue
            x = z3.Const('synth_x', seq.t.el.sort())
            alts = []
            for x0, gs, u in runs:
                g = z3.simplify(z3.And(*gs)) if gs else z3.BoolVal(True)
                alts.append((z3.substitute(g, (x0, x)),
                             [z3.substitute(e, (x0, x)) for e in u[k]]))
            if all(len(e) == len(alts[0][1]) and all(
                    a.eq(b) for a, b in zip(e, alts[0][1]))
                   for _, e in alts):
                alts = [(z3.BoolVal(True), alts[0][1])]
            caps = {}
            for g, es in alts:
                for e in [g] + es:
                    for n, c in self.free_consts(e).items():
                        if '!' in n:
                            caps[n] = c
            ps = [caps[n] for n in sorted(caps)]
            qs = [z3.Const('synth_q%d' % i, c.sort())
                  for i, c in enumerate(ps)]
            sub = list(zip(ps, qs))
            alts = [(z3.substitute(g, *sub), [z3.substitute(e, *sub)
                                              for e in es])
                    for g, es in alts] if sub else alts
            t = L0[k][0]
            key = (seq.t.name, t.name, tuple(
                (g.sexpr(), tuple(e.sexpr() for e in es))
                for g, es in alts))
            F = self.synth.get(key)
            if F is None:
                F = self.synth[key] = Filter(
                    'made%d' % len(self.synth), seq.t, t, x, qs, alts)
            out.append((k, F, ps))
        return out

    def set_origin(self, leaf, F, s, ps):
        t, e = leaf
        self._keep.append(e)
        self.st.origins[e.get_id()] = (F, s, ps)
        if F.one_to_one:
            self.assume(self.len(t, e) == self.len(F.dom, s))

    def origin(self, s):
        if not self.st.origins:
            return None
        return self.st.origins.get(s.e.get_id())

    def fused_items(self, F, ps, x):
        """the elements F makes of x"""
        xe = self.z(x, F.dom.el)
        for g, es in F.alts[:-1]:
            if self.branch(F.at(g, xe, ps)):
                break
        else:
            es = F.alts[-1][1]
        return [self.val(F.ret.el, F.at(e, xe, ps)) for e in es]

    def loop_fused(self, fr, v, bind, body):
        """iterating over [e(x) for x in s if g(x)] is iterating over s"""
        F, s, ps = self.origin(v)

        def bind2(x):
            todo = self.fused_items(F, ps, x)
            if not todo:
                raise ContinueEx()
            for y in todo[:-1]:
                try:
                    bind(y)
                    body()
                except ContinueEx:
                    pass
            bind(todo[-1])
        base = Sym(F.dom, s)
        if self.origin(base) is not None:
            return self.loop_fused(fr, base, bind2, body)
        self.cut(F.node, fr, base, bind2, body)

    def first(self, v, pred=None):
        """(element, what follows) for the first element of v, a list with an
        origin, (satisfying pred), or None"""
        t = v.t
        key = ('uncons', t.name, v.e.get_id())
        if pred is None and key in self.st.ghost:
            return self.st.ghost[key]
        F, s, ps = self.origin(v)
        if pred is None and F.one_to_one:
            if not self.branch(v.e != t.nil):
                self.assume(s == F.dom.nil)
                return None
            return self.uncons(v)
        found = []
        fr = self.cur_frame()

        def bind(y):
            found.append(y)

        def body():
            if pred is None or self.branch(self.truthy(pred(found[-1]))):
                raise BreakEx()
            del found[:]
        try:
            self.loop_fused(fr, v, bind, body)
        except BreakEx:
            if pred is not None:
                return found[-1], None
            self.assume(v.e != t.nil)
            r = self.uncons(v)
            self.assume(self.z(r[0], t.el) == self.z(found[-1], t.el))
            r = self.st.ghost[key] = (found[-1], r[1])
            return r
        if pred is None:
            self.assume(v.e == t.nil)
            self.none_made(F, s, ps)
        return None

    def none_made(self, F, s, ps):
        """F(s) = nil: every member of s makes nothing (by induction on s)"""
        y = z3.Const('y_made', F.dom.el.sort())
        nothing, before = [], []
        for g, es in F.alts:
            g = F.at(g, y, ps)
            if es:
                nothing.append(z3.Or(*(before + [z3.Not(g)])))
            before.append(g)
        if F.alts[-1][1]:
            nothing[-1] = z3.Or(*before[:-1])
        st = self.st.ghost.get(('uncons', 'elems', s.sexpr()))
        if st is not None:
            app = z3.Select(st, y)
        else:
            app = self.memfold(F.dom).fn(s, y)
        try:
            self.assume(z3.ForAll([y], z3.Implies(app, z3.And(*nothing)),
                                  patterns=[app]))
        except z3.Z3Exception:
            pass

    def truthy(self, r):
        return r.e if isinstance(r, Sym) else r

    def candidates(self, seq, shapes, L0, node):
        cands = []

        def add(text, fn):
            cands.append((text, fn))
        apps = []
        if seq is not None:
            for f, ps in self.fold_insts(seq.t):
                if not f.auto:
                    continue
                nm = f.name if not ps else '%s(..%s)' % (
                    f.name, ','.join(str(x)[:20] for x in ps))
                apps.extend(self.components(
                    nm, f.ret, lambda p, f=f, ps=ps: f(p, *ps)))
        for nm, rt, g in apps:
            if rt is TBool:
                add(nm, lambda p, L, g=g: g(p))
                add('not ' + nm, lambda p, L, g=g: z3.Not(g(p)))
        for path, (t, e0) in L0.items():
            cur = lambda L, path=path: L[path][1]
            if e0 is not None:
                add('%s unchanged' % path,
                    lambda p, L, c=cur, e0=e0: c(L) == e0)
            if isinstance(t, (TSeq,)) and seq is not None and t == seq.t \
                    and e0 is not None:
                add('%s = %s0 + p' % (path, path),
                    lambda p, L, c=cur, t=t, e0=e0:
                    c(L) == self.cat(t, e0, p))
            if t in (TInt, TReal) and seq is not None and e0 is not None:
                add('%s = %s0 + len' % (path, path),
                    lambda p, L, c=cur, t=t, e0=e0: c(L) == e0 + (
                        self.len(seq.t, p) if t is TInt else
                        z3.ToReal(self.len(seq.t, p))))
            for nm, rt, g in apps:
                if rt == t or t is TReal and rt is TInt:
                    cv = (lambda v: z3.ToReal(v)) if t is TReal and \
                        rt is TInt else (lambda v: v)
                    add('%s = %s' % (path, nm),
                        lambda p, L, c=cur, g=g, cv=cv: c(L) == cv(g(p)))
                    if e0 is None:
                        continue
                    if isinstance(t, TSeq):
                        if seq_parts(t, e0)[0] != 'nil':
                            add('%s = %s0 + %s' % (path, path, nm),
                                lambda p, L, c=cur, g=g, t=t, e0=e0:
                                c(L) == self.cat(t, e0, g(p)))
                    elif t in (TInt, TReal):
                        add('%s = %s0 + %s' % (path, path, nm),
                            lambda p, L, c=cur, g=g, e0=e0, cv=cv:
                            c(L) == e0 + cv(g(p)))
                elif isinstance(t, TMap) and isinstance(rt, TSet) and \
                        t.k == rt.k:
                    add('keys of %s = %s' % (path, nm),
                        lambda p, L, c=cur, g=g, t=t: t.has(c(L)) == g(p))
                elif isinstance(t, TOpt) and t.el == rt and \
                        e0 is not None and seq is not None:
                    add('%s = some %s or initial' % (path, nm),
                        lambda p, L, c=cur, g=g, e0=e0, t=t, T=seq.t:
                        c(L) == z3.If(p == T.nil, e0, t.some(g(p))))
            if isinstance(t, TObj) and t.mut:
                pass
        for tmpl in self.templates:
            for text, fn in tmpl(self, seq, L0, node):
                add(text, fn)
        return cands

    def components(self, nm, t, g):
        out = [(nm, t, g)]
        if isinstance(t, TTup):
            for i, x in enumerate(t.els):
                out.extend(self.components(
                    '%s.%d' % (nm, i), x,
                    lambda p, i=i: t.get(g(p), i)))
        elif isinstance(t, TStruct):
            for n, x in t.fields:
                out.extend(self.components(
                    '%s.%s' % (nm, n), x,
                    lambda p, n=n: t.get(g(p), n)))
        return out

    # ---------------------------------------------------- locations, shapes
    def diff(self, head, entry):
        """locations (existing at entry) whose value differs from head"""
        cur = self.st
        out = []
        for fid, hd in head.frames.items():
            if fid not in entry.frames:
                continue
            cd = cur.frames.get(fid)
            if cd is None:
                raise Unsupported('a frame ended in a loop')
            for n in cd:
                if n not in hd or not same(hd[n], cd[n]):
                    out.append(('var', fid, n))
            for n in hd:
                if n not in cd:
                    raise Unsupported('del of a variable in a loop')
        for oid, ho in head.heap.items():
            if oid not in entry.heap:
                continue
            co = cur.heap[oid]
            if isinstance(ho, HView):
                continue
            if isinstance(ho, HList):
                if not same(ho.content, co.content):
                    out.append(('list', oid))
                for a in co.attrs:
                    if a not in ho.attrs or not same(ho.attrs[a],
                                                     co.attrs[a]):
                        out.append(('attr', oid, a))
            elif isinstance(ho, HInst):
                for a in co.attrs:
                    if a not in ho.attrs or not same(ho.attrs[a],
                                                     co.attrs[a]):
                        out.append(('attr', oid, a))
            elif isinstance(ho, HDict):
                if not (ho.d is None) == (co.d is None) or \
                        ho.d is not None and not (
                            list(ho.d) == list(co.d) and
                            all(same(ho.d[k], co.d[k]) for k in ho.d)) or \
                        list(ho.fixed) != list(co.fixed) or not all(
                            same(ho.fixed[k], co.fixed[k])
                            for k in ho.fixed) or \
                        ho.d is None and not (same(ho.m, co.m) and
                                              same(ho.keys, co.keys)):
                    out.append(('dict', oid))
            elif isinstance(ho, HSet):
                if not same(ho.items, co.items):
                    out.append(('set', oid))
            elif isinstance(ho, HGen):
                if ho.content is not co.content and not same(
                        ho.content, co.content):
                    raise Unsupported('a generator is advanced in a loop')
            if co.frozen and not ho.frozen:
                out.append(('frozen', oid))
        for k in cur.arrays:
            if k not in head.arrays:
                # first used in the loop: its initial value
                a0 = z3.Const('%s.%s@0' % k, cur.arrays[k].sort())
                head.arrays[k] = a0
                entry.arrays.setdefault(k, a0)
            if not head.arrays[k].eq(cur.arrays[k]):
                out.append(('array', k))
        for k in cur.ghost:
            if isinstance(k, tuple) and k[0] == 'uncons':
                continue        # a memo of this path
            if not same(head.ghost.get(k), cur.ghost[k]):
                out.append(('ghost', k))
        return out

    def value_at(self, loc):
        k = loc[0]
        if k == 'var':
            return self.st.frames[loc[1]].get(loc[2], UNBOUND)
        if k == 'attr':
            return self.st.heap[loc[1]].attrs.get(loc[2], UNBOUND)
        if k in ('list', 'dict', 'set', 'frozen'):
            return Ref(loc[1])
        if k == 'array':
            return self.st.arrays[loc[1]]
        if k == 'ghost':
            return self.st.ghost[loc[1]]

    def shape_at(self, loc, entry, node):
        k = loc[0]
        v = self.value_at(loc)
        if k == 'var':
            if v is UNBOUND:
                if (id(node), loc[2]) in self.tracked:
                    return ('unbound',)
                return ('poison', (id(node), loc[2]))
            if isinstance(v, Poison):
                return ('poison', v.why)
            if loc[2] not in entry.frames.get(loc[1], ()) and \
                    (id(node), loc[2]) not in self.tracked:
                return ('poison', (id(node), loc[2]))
            if (id(node), loc[2]) in self.tracked:
                if isinstance(v, Maybe):
                    if z3.is_false(z3.simplify(v.flag)):
                        return ('unbound',)
                    v = v.value
                return ('maybe', self.shape_of(v, entry))
            if isinstance(v, Maybe):
                return ('maybe', self.shape_of(v.value, entry))
            try:
                return self.shape_of(v, entry)
            except Aliased:
                # not readable at the loop head, unless assigned again
                return ('poison', '%s is an aliased object at a loop head'
                        % loc[2])
        if v is UNBOUND:
            return ('poison', (id(node), loc[2]))
        if k == 'list':
            return ('seq', self.typ(v))
        if k == 'set':
            return ('setc', self.typ(v))
        if k == 'dict':
            return self.dict_shape(v, entry)
        if k == 'frozen':
            return ('frozen',)
        if k == 'array':
            return ('array', v.sort())
        return self.shape_of(v, entry)

    def dict_shape(self, v, entry):
        h = self.h(v)
        if h.d is not None:
            return ('dictc', tuple((k, self.shape_of(x, entry))
                                   for k, x in h.d.items()))
        if h.fixed:
            return ('mix', tuple((k, self.shape_of(x, entry))
                                 for k, x in sorted(h.fixed.items())), h.m.t)
        return ('map', self.typ(v), h.keys.t if h.keys is not None else None)

    def refcounts(self, entry=None):
        if self.refs is not None and entry is not None:
            return self.refs
        cnt = {}

        def see(v):
            if isinstance(v, Ref):
                cnt[v.oid] = cnt.get(v.oid, 0) + 1
            elif isinstance(v, (tuple, list)):
                for x in v:
                    see(x)
            elif isinstance(v, BoundV):
                see(v.self_)
            elif isinstance(v, Maybe):
                see(v.value)
            elif isinstance(v, TermV):
                see(v.args)
                see(list(v.kwargs.values()))
        for fid, d in self.st.frames.items():
            ed = entry.frames.get(fid) if entry is not None else None
            for n, v in d.items():
                if ed is not None and n not in ed and not any(
                        k[1] == n for k in self.tracked):
                    continue        # dead at the loop head
                see(v)
        for h in self.st.heap.values():
            if isinstance(h, HView):
                pass
            elif isinstance(h, HList):
                see(h.content)
                see(list(h.attrs.values()))
            elif isinstance(h, HInst):
                see(list(h.attrs.values()))
            elif isinstance(h, HDict):
                see(list((h.d or h.fixed).values()))
            elif isinstance(h, HSet):
                see(h.items)
        if entry is not None:
            self.refs = cnt
        return cnt

    def shape_of(self, v, entry):
        """shape of a value in the current state"""
        if isinstance(v, Ref):
            if entry is not None and v.oid in entry.heap:
                return ('ref', v.oid)
            return self.tree(v, entry)
        if isinstance(v, (FuncV, BoundV, Builtin, ClassV, ModuleV, ExtV,
                          UFun, TermV, Descr)):
            return ('const', Box(v))
        if isinstance(v, tuple):
            if any(isinstance(x, (Ref, TermV, FuncV, BoundV, ClassV, ExtV))
                   for x in v):
                return ('tup', tuple(self.shape_of(x, entry) for x in v))
        return ('val', self.typ(v))

    def tree(self, v, entry):
        h = self.h(v)
        if isinstance(h, HView):
            raise Aliased('a list in a dictionary at a loop head')
        if not h.frozen and self.refcounts(entry).get(v.oid, 0) > 1:
            raise Aliased('aliased object at a loop head')
        if isinstance(h, HList):
            return ('list', self.typ(v), h.cls, tuple(sorted(
                (a, self.shape_of(x, entry)) for a, x in h.attrs.items())),
                h.frozen)
        if isinstance(h, HInst):
            return ('inst', h.cls, tuple(sorted(
                (a, self.shape_of(x, entry)) for a, x in h.attrs.items())),
                h.frozen)
        if isinstance(h, HSet):
            return ('set', self.typ(v), h.frozen)
        if isinstance(h, HDict):
            s = self.dict_shape(v, entry)
            return ('hdict', s, h.frozen)
        raise Aliased('a generator is live at a loop head')

    def shape_type(self, s):
        k = s[0]
        if k == 'val':
            return s[1]
        if k in ('list', 'set'):
            return s[1]
        if k == 'inst' and s[1].name in self.value_types:
            return self.value_types[s[1].name][0]
        if k == 'inst':
            return TStruct(s[1].name, [(a, self.shape_type(x))
                                       for a, x in s[2]], s[1])
        if k == 'ref':
            return self.typ(Ref(s[1]))
        if k == 'tup':
            return TTup(*[self.shape_type(x) for x in s[1]])
        if k == 'hdict' and s[1][0] == 'map':
            return s[1][1]
        raise JoinError('no type for shape %r' % (s,))

    def join_shape(self, a, b):
        if a == b:
            return a
        ka, kb = a[0], b[0]
        if ka == 'poison' or kb == 'poison':
            return a if ka == 'poison' else b
        if ka == 'unbound':
            return b
        if kb == 'unbound':
            return a
        if ka == 'maybe' or kb == 'maybe':
            return ('maybe', self.join_shape(a[1] if ka == 'maybe' else a,
                                             b[1] if kb == 'maybe' else b))
        if ka == 'ref' and kb != 'ref' or kb == 'ref' and ka != 'ref' or \
                ka == kb == 'ref':
            if ka == 'ref':
                a = self.tree(Ref(a[1]), None)
            if kb == 'ref':
                b = self.tree(Ref(b[1]), None)
            return self.join_shape(a, b)
        if ka == kb == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.join_shape(x, y)
                                 for x, y in zip(a[1], b[1])))
        if ka == kb == 'inst' and a[1] is b[1]:
            da, db = dict(a[2]), dict(b[2])
            if set(da) != set(db):
                raise Unsupported('objects of different layout in a loop')
            return ('inst', a[1], tuple(sorted(
                (n, self.join_shape(da[n], db[n])) for n in da)),
                a[3] or b[3])
        if ka == kb == 'list' and a[2] is b[2]:
            da, db = dict(a[3]), dict(b[3])
            if set(da) != set(db):
                raise Unsupported('objects of different layout in a loop')
            return ('list', join(a[1], b[1]), a[2], tuple(sorted(
                (n, self.join_shape(da[n], db[n])) for n in da)),
                a[4] or b[4])
        if ka == kb == 'set':
            return ('set', join(a[1], b[1]), a[2] or b[2])
        if ka == kb and ka in ('seq', 'setc'):
            return (ka, join(a[1], b[1]))
        if ka in ('dictc', 'map', 'mix') and kb in ('dictc', 'map', 'mix'):
            if ka == kb == 'dictc' and [k for k, _ in a[1]] == \
                    [k for k, _ in b[1]]:
                return ('dictc', tuple(
                    (k, self.join_shape(x, dict(b[1])[k]))
                    for k, x in a[1]))
            try:
                if 'mix' in (ka, kb):
                    raise JoinError('mixed')
                self.map_type(a), self.map_type(b)
            except JoinError:
                return self.join_mixed(a, b)
            return ('map', join(self.map_type(a), self.map_type(b)),
                    self.keys_type(a) and self.keys_type(b) and
                    join(self.keys_type(a), self.keys_type(b)))
        if ka == kb == 'hdict':
            return ('hdict', self.join_shape(a[1], b[1]), a[2] or b[2])
        try:
            return ('val', join(self.shape_type(a), self.shape_type(b)))
        except JoinError as e:
            raise Unsupported('loop state: %s' % e)

    def join_mixed(self, a, b):
        """shapes of dictionaries with values of different types: the keys
        always there are kept apart"""
        def parts(s):
            if s[0] == 'map':
                return {}, s[1]
            fixed = dict((k, x) for k, x in s[1] if isinstance(k, str))
            t = s[2] if s[0] == 'mix' else TMap(TBot, TBot)
            for k, x in s[1]:
                if k not in fixed:
                    t = TMap(join(t.k, self.typ(k)),
                             join(t.v, self.shape_type(x)))
            return fixed, t
        (fa, ta), (fb, tb) = parts(a), parts(b)
        t = join(ta, tb) if not (ta.k is TBot or tb.k is TBot) else \
            tb if ta.k is TBot else ta
        for f, g in ((fa, fb), (fb, fa)):
            for k in f:
                if k not in g:
                    t = TMap(join(t.k, TStr),
                             join(t.v, self.shape_type(f[k])))
        if t.k is TBot:
            t = TMap(TStr, TStr)
        return ('mix', tuple((k, self.join_shape(fa[k], fb[k]))
                             for k in sorted(fa) if k in fb), t)

    def mixed_rest(self, v, s):
        """the term for the keys of a dictionary which are not kept apart
        in the shape"""
        h, t = self.h(v), s[2]
        apart = [k for k, _ in s[1]]
        has, val = (z3.K(t.k.sort(), z3.BoolVal(False)),
                    z3.K(t.k.sort(), self.default_of(t.v)))
        if h.d is None:
            if h.m.t != t:
                raise Unsupported('a dictionary of different things')
            has, val = t.has(h.m.e), t.val(h.m.e)
        for k, x in (h.d if h.d is not None else h.fixed).items():
            if k not in apart:
                ke = self.z(k, t.k)
                has = z3.Store(has, ke, z3.BoolVal(True))
                val = z3.Store(val, ke, self.z(x, t.v, 'deep'))
        return t.mk(has, val)

    def map_type(self, s):
        if s[0] == 'map':
            return s[1]
        k = v = TBot
        for kk, sh in s[1]:
            k = join(k, self.typ(kk))
            v = join(v, self.shape_type(sh))
        return TMap(k, v)

    def keys_type(self, s):
        if s[0] == 'map':
            return s[2]
        k = TBot
        for kk, sh in s[1]:
            k = join(k, self.typ(kk))
        return TSeq(k)

    def make(self, s, name):
        """a fresh value of a shape"""
        k = s[0]
        if k == 'val':
            if s[1] is TNone:
                return None
            if s[1] is TBot:
                raise Unsupported('no type for %s' % name)
            v = self.fresh(name, s[1])
            return self.val(s[1], v.e)
        if k == 'const':
            return s[1].v
        if k == 'tup':
            return tuple(self.make(x, '%s.%d' % (name, i))
                         for i, x in enumerate(s[1]))
        if k == 'ref':
            return Ref(s[1])
        if k == 'maybe':
            flag = self.fresh(name + '?', TBool).e
            return Maybe(flag, self.make(s[1], name))
        if k == 'poison':
            return Poison(s[1])
        if k == 'list':
            h = HList([] if s[1].el is TBot else
                      self.fresh(name, s[1]), s[2])
            h.attrs = dict((a, self.make(x, name + '.' + a))
                           for a, x in s[3])
            h.frozen = s[4]
            return self.alloc(h)
        if k == 'inst':
            h = HInst(s[1], dict((a, self.make(x, name + '.' + a))
                                 for a, x in s[2]))
            h.frozen = s[3]
            return self.alloc(h)
        if k == 'set':
            h = HSet([] if s[1].k is TBot else self.fresh(name, s[1]))
            h.frozen = s[2]
            return self.alloc(h)
        if k == 'hdict':
            r = self.alloc(HDict())
            self.fill_dict(self.h(r), s[1], name)
            self.h(r).frozen = s[2]
            return r
        raise Unsupported('shape %s' % k)

    def fill_dict(self, h, s, name):
        if s[0] == 'dictc':
            h.d = dict((k, self.make(x, '%s[%s]' % (name, k)))
                       for k, x in s[1])
            h.m = h.keys = None
            h.fixed = {}
        elif s[0] == 'mix':
            h.d = h.keys = None
            h.ver = self.fresh_id()
            h.fixed = dict((k, self.make(x, '%s[%s]' % (name, k)))
                           for k, x in s[1])
            h.m = self.fresh(name, s[2])
        else:
            h.d = None
            h.fixed = {}
            h.ver = self.fresh_id()
            h.m = self.fresh(name, s[1])
            h.keys = self.fresh(name + '.keys', s[2]) if s[2] else None

    def havoc(self, shapes, node):
        for loc, s in shapes.items():
            k = loc[0]
            nm = self.locname(loc)
            if k == 'var':
                if s[0] == 'unbound':
                    continue
                self.st.frames[loc[1]][loc[2]] = self.make(s, nm)
            elif k == 'attr':
                self.st.heap[loc[1]].attrs[loc[2]] = self.make(s, nm)
            elif k == 'list':
                if s[1].el is not TBot:
                    self.st.heap[loc[1]].content = self.fresh(nm, s[1])
            elif k == 'set':
                if s[1].k is not TBot:
                    self.st.heap[loc[1]].items = self.fresh(nm, s[1])
            elif k == 'dict':
                self.fill_dict(self.st.heap[loc[1]], s, nm)
            elif k == 'frozen':
                self.st.heap[loc[1]].frozen = True
            elif k == 'array':
                self.st.arrays[loc[1]] = z3.Const(
                    '%s!%d' % (nm, self.fresh_id()), s[1])
            elif k == 'ghost':
                self.st.ghost[loc[1]] = self.make(s, nm)
        return self.leafterms(shapes)

    def locname(self, loc):
        if loc[0] == 'var':
            return loc[2]
        if loc[0] == 'attr':
            return 'attr_' + loc[2]
        if loc[0] == 'array':
            return '%s.%s' % loc[1]
        return '%s_%s' % (loc[0], loc[1])

    def leafterms(self, shapes, entry=False):
        out = {}
        for loc, s in shapes.items():
            nm = '%s' % self.locname(loc)
            if nm in out or loc[0] == 'var':
                nm = '%s#%s' % (nm, loc[1]) if loc[0] == 'var' else nm
            v = self.value_at(loc)
            k = loc[0]
            if k == 'frozen':
                continue
            if k == 'array':
                out[nm] = (Raw(s[1]), v)
            elif k == 'list':
                if s[1].el is not TBot:
                    out[nm] = (s[1], self.z(v, s[1]))
            elif k == 'set':
                if s[1].k is not TBot:
                    out[nm] = (s[1], self.z(v, s[1]))
            elif k == 'dict':
                self.dict_leaves(out, nm, s, v)
            else:
                self.leaves_of(out, nm, s, v)
        return out

    def dict_leaves(self, out, nm, s, v):
        if s[0] == 'dictc':
            for kk, x in s[1]:
                self.leaves_of(out, '%s[%s]' % (nm, kk), x,
                               self.h(v).d[kk])
        elif s[0] == 'mix':
            h = self.h(v)
            d = h.d if h.d is not None else h.fixed
            for kk, x in s[1]:
                self.leaves_of(out, '%s[%s]' % (nm, kk), x, d[kk])
            out[nm] = (s[2], self.mixed_rest(v, s))
        else:
            out[nm] = (s[1], self.z(v, s[1]))
            if s[2] is not None:
                h = self.h(v)
                out[nm + '.keys'] = (
                    s[2], self.z(h.keys, s[2]) if h.d is None else
                    self.z(tuple(h.d), s[2]))

    def leaves_of(self, out, nm, s, v):
        k = s[0]
        if k == 'val':
            if s[1] is not TNone:
                out[nm] = (s[1], None if v is UNBOUND else self.z(v, s[1]))
        elif k == 'maybe':
            if v is UNBOUND:
                out[nm + '?'] = (TBool, z3.BoolVal(False))
                self.none_leaves(out, nm, s[1])
            elif isinstance(v, Maybe):
                out[nm + '?'] = (TBool, v.flag)
                self.leaves_of(out, nm, s[1], v.value)
            else:
                out[nm + '?'] = (TBool, z3.BoolVal(True))
                self.leaves_of(out, nm, s[1], v)
        elif k == 'tup':
            for i, x in enumerate(s[1]):
                self.leaves_of(out, '%s.%d' % (nm, i), x, v[i])
        elif k == 'list':
            if s[1].el is not TBot:
                out[nm] = (s[1], self.z(v, s[1], freeze=False))
            for a, x in s[3]:
                self.leaves_of(out, nm + '.' + a, x, self.h(v).attrs[a])
        elif k == 'inst':
            for a, x in s[2]:
                self.leaves_of(out, nm + '.' + a, x, self.h(v).attrs[a])
        elif k == 'set':
            if s[1].k is not TBot:
                out[nm] = (s[1], self.z(v, s[1]))
        elif k == 'hdict':
            self.dict_leaves(out, nm, s[1], v)

    def none_leaves(self, out, nm, s):
        if s[0] == 'val' and s[1] is not TNone:
            out[nm] = (s[1], z3.Const('unbound!' + nm, s[1].sort()))
        elif s[0] != 'val':
            raise Unsupported('a possibly unbound object')

    # -------------------------------------------------- list operations
    def list_append(self, ref, x):
        h = self.hmut(ref)
        if isinstance(h.content, list):
            h.content.append(x)
            return
        t = h.content.t
        try:
            e = self.z(x, t.el, 'deep')
        except JoinError:
            try:
                raise Retype(ref.oid, TSeq(join(t.el, self.typ(x))))
            except JoinError as err:
                raise Unsupported('append: %s' % err)
        h.content = Sym(t, self.snoc(t, h.content.e, e))

    def list_extend(self, ref, other):
        h = self.hmut(ref)
        if isinstance(other, Ref) and isinstance(self.h(other),
                                                 (HZip, HGen)):
            o = self.h(other)
            if isinstance(o, HZip) or o.content is None:
                self.loop_over(
                    {'_': 'For', 'lineno': self.line[1]},
                    self.cur_frame(), other,
                    lambda x: self.list_append(ref, x), lambda: None)
                return
        c = self.content(other)
        h = self.hmut(ref)
        if isinstance(c, list):
            for x in c:
                self.list_append(ref, x)
            return
        h.content = self.cat_content(h.content, c)

    def cat_content(self, a, b):
        """concatenation of two contents (at least one symbolic)"""
        ta = a.t if isinstance(a, Sym) else self.typ(self.new_list(a))
        tb = b.t if isinstance(b, Sym) else self.typ(self.new_list(b))
        t = join(ta, tb)
        ea = a.e if isinstance(a, Sym) and a.t == t else self.z(
            a if isinstance(a, Sym) else self.new_list(a), t)
        eb = b.e if isinstance(b, Sym) and b.t == t else self.z(
            b if isinstance(b, Sym) else self.new_list(b), t)
        return Sym(t, self.cat(t, ea, eb))

    def list_concat(self, a, b):
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, list) and isinstance(cb, list):
            return self.new_list(ca + cb)
        ca, cb = [[self.unopt(x) for x in c] if isinstance(c, list) else c
                  for c in (ca, cb)]
        return self.new_list(self.cat_content(ca, cb))

    def set_add(self, ref, x):
        h = self.hmut(ref)
        if isinstance(h.items, list):
            e = self.or_([self.eq(x, y) for y in h.items])
            if e is True:
                return
            if e is False:
                h.items.append(x)
                return
            if self.branch(e):
                return
            self.hmut(ref).items.append(x)
            return
        t = h.items.t
        h.items = Sym(t, z3.Store(h.items.e, self.z(x, t.k),
                                  z3.BoolVal(True)))

    # ------------------------------------------------------------- items
    def norm_index(self, i):
        if isinstance(i, Sym) and isinstance(i.t, TOpt):
            i = self.unopt(i)
        return i

    def getitem(self, o, i):
        if isinstance(o, Sym) and isinstance(o.t, TOpt):
            o = self.unopt(o)
        if isinstance(o, (str, tuple)) and isinstance(i, (int, slice)) and \
                not (isinstance(i, slice) and any(
                    isinstance(x, Sym) for x in (i.start, i.stop, i.step))):
            try:
                return o[i]
            except IndexError:
                self.raise_('IndexError', 'index out of range')
        if isinstance(o, Ref):
            h = self.h(o)
            if isinstance(h, HInst):
                nt = self.ntfields(h)
                if nt and h.cls.lookup('__getitem__')[0] is None:
                    return self.getitem(tuple(h.attrs[n] for n in nt), i)
                if h.cls.lookup('__getitem__')[0] is not None:
                    return self.call(self.getattr(o, '__getitem__'), [i], {})
                self.raise_('TypeError', 'not subscriptable')
            if isinstance(h, HList):
                if h.cls is not None and h.cls.lookup('__getitem__')[0]:
                    return self.call(self.getattr(o, '__getitem__'), [i], {})
                r = self.seq_getitem(h.content, i)
                if isinstance(i, slice):
                    return self.new_list(r)
                return r
            if isinstance(h, HDict):
                return self.dict_getitem(o, h, i)
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, Sym):
            t = o.t
            if isinstance(t, TSeq):
                r = self.seq_getitem(o, i)
                return r
            if isinstance(t, TTup) and isinstance(i, int):
                return self.proj(o, i)
            if isinstance(t, TStruct) and t.cls is not None:
                return self.getitem(self.thaw(o), i)
            if isinstance(t, TObj) and 'getitem' in t.hooks:
                return t.hooks['getitem'](self, o, i)
            if isinstance(t, TMap):
                if self.branch(z3.Select(t.has(o.e), self.z(i, t.k))):
                    return self.val(t.v, z3.Select(t.val(o.e),
                                                   self.z(i, t.k)))
                self.raise_('KeyError', i)
            if t is TStr:
                if isinstance(i, int) and i >= 0:
                    if not self.branch(z3.Length(o.e) > i):
                        self.raise_('IndexError', 'string index')
                    return self.val(TStr, z3.SubString(o.e, i, 1))
                if isinstance(i, slice) and i.step in (None, 1) and all(
                        x is None or type(x) is int or (
                            isinstance(x, Sym) and x.t is TInt)
                        for x in (i.start, i.stop)):
                    n = z3.Length(o.e)

                    def bound(x, default):
                        if x is None:
                            return default
                        if type(x) is int:
                            if x >= 0:
                                return z3.IntVal(x)
                            x = n + x
                            return z3.If(x < 0, z3.IntVal(0), x)
                        x = self.z(x, TInt)
                        return z3.If(x < 0, z3.If(x + n < 0, 0, x + n), x)
                    lo = bound(i.start, z3.IntVal(0))
                    hi = bound(i.stop, n)
                    # out of range or negative lengths give the empty string
                    return self.val(TStr, z3.SubString(o.e, lo, hi - lo))
        if isinstance(o, TermV) or isinstance(o, ExtV):
            h = self.externals.get('getitem')
            if h is not None:
                r = h(self, o, i)
                if r is not None:
                    return r
            return TermV('getitem', (o, i), {})
        if isinstance(o, ClassV) and o.meta is not None:
            m, _ = o.meta.lookup('__getitem__')
            if m is not None:
                return self.call(m, [o, i], {})
        if o is None or isinstance(o, (int, float)):
            self.raise_('TypeError', 'not subscriptable')
        raise Unsupported('%r[%r]' % (o, i))

    def seq_getitem(self, c, i):
        if isinstance(i, Sym) and isinstance(i.t, TOpt):
            i = self.unopt(i)
        if isinstance(c, list):
            if isinstance(i, slice):
                if any(isinstance(x, Sym) for x in (i.start, i.stop,
                                                    i.step)):
                    raise Unsupported('symbolic slice')
                return c[i]
            if isinstance(i, int):
                try:
                    return c[i]
                except IndexError:
                    self.raise_('IndexError', 'list index out of range')
            if isinstance(i, Sym) and i.t is TInt:
                for k in range(len(c)):
                    if self.branch(z3.Or(i.e == k, i.e == k - len(c))):
                        return c[k]
                self.raise_('IndexError', 'list index out of range')
            if isinstance(i, str) or i is None or isinstance(i, (Sym,
                                                                 tuple)):
                self.raise_('TypeError', 'list indices must be integers')
            raise Unsupported('index %r' % (i,))
        t = c.t
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return c
            if i.step is None and i.stop is None and i.start == 1:
                return self.tail(c)
            if i.step is None and i.start is None and i.stop == -1:
                if self.branch(c.e == t.nil):
                    return c
                return Sym(t, z3.simplify(t.init(c.e)))
            if i.step == -1 and i.start is None and i.stop is None:
                return self.B.reversed_seq(self, c)
            return self.seq_slice(c, i)
        if isinstance(i, (str, tuple)) or i is None:
            self.raise_('TypeError', 'list indices must be integers')
        if i == -1 and not isinstance(i, Sym):
            if self.branch(c.e == t.nil):
                self.raise_('IndexError', 'list index out of range')
            return self.val(t.el, z3.simplify(t.last(c.e)))
        n = self.len(t, c.e)
        if i == 0 and not isinstance(i, Sym):
            if self.branch(c.e == t.nil):
                self.raise_('IndexError', 'list index out of range')
            h, _ = self.uncons(c)
            return h
        ie = self.z(i, TInt)
        if not self.branch(z3.And(ie < n, ie >= -n)):
            self.raise_('IndexError', 'list index out of range')
        if not (isinstance(i, int) and i >= 0):
            if not (isinstance(i, Sym) and self.valid(ie >= 0)[0] ==
                    'proved'):
                ie = z3.If(ie < 0, ie + n, ie)
        return self.nth(c, ie)

    def uncons(self, c):
        """c (known not nil) == [h] + tail"""
        t = c.t
        key = ('uncons', t.name, c.e.get_id())
        if key in self.st.ghost:
            return self.st.ghost[key]
        o = self.origin(c)
        if o is not None and not o[0].one_to_one:
            self.st.origins.pop(c.e.get_id())
            o = None
        tail = self.fresh('tail', t)
        h = self.fresh('hd', t.el)
        one = t.rawsnoc(t.nil, h.e)
        self._keep.append(c.e)
        self.assume(self.len(t, c.e) == self.len(t, tail.e) + 1)
        self.assume(self.nthfold(t)(c.e, z3.IntVal(0)) == h.e)
        self.assume(self.headfold(t)(c.e) == h.e)
        self.assume(self.tailfn(t)(c.e) == tail.e)
        for f, ps in self.fold_insts(t):
            if f.hom_ok:
                self.assume(f(c.e, *ps) == f.hom(f(one, *ps),
                                                 f(tail.e, *ps)))
        r = (self.val(t.el, h.e), tail)
        if o is not None:
            F, s, ps = o
            base = Sym(F.dom, s)
            if self.origin(base) is None:
                self.assume(s != F.dom.nil)
            x, more = self.uncons(base)
            y = F.at(F.alts[0][1][0], self.z(x, F.dom.el), ps)
            self.assume(h.e == y)
            self.set_origin((t, tail.e), F, more.e, ps)
            r = (self.val(t.el, y), tail)
        self.st.ghost[key] = r
        return r

    def tailfn(self, t):
        """what follows the first element (of a sequence that has one)"""
        return z3.Function('tail_' + t.el.name, t.sort(), t.sort())

    def tail(self, c):
        if self.branch(c.e == c.t.nil):
            return c
        return self.uncons(c)[1]

    def seq_slice(self, c, i):
        """c[a:b]: an arbitrary sequence of the right length"""
        t = c.t
        if i.step is not None:
            raise Unsupported('extended slice')
        if i.start in (None, 0) and i.stop == -1:
            if not self.branch(c.e != t.nil):
                return Sym(t, t.nil)
            return Sym(t, self.unfold_last(t, c.e)[0])
        f = z3.Function('slice_' + t.el.name, t.sort(), z3.IntSort(),
                        z3.IntSort(), t.sort())
        n = self.len(t, c.e)
        lo = self.z(i.start if i.start is not None else 0, TInt)
        hi = n if i.stop is None else self.z(i.stop, TInt)
        r = f(c.e, lo, hi)
        self.reg(t, r)
        return Sym(t, r)

    def dict_getitem(self, o, h, k):
        if h.d is not None:
            if self.hashable(k):
                if k in h.d:
                    return h.d[k]
            for kk in list(h.d):
                e = self.eq(k, kk)
                if e is False:
                    continue
                if self.branch(e):
                    return h.d[kk]
            if h.default is not None:
                v = self.call(h.default, [], {})
                self.setitem(o, k, v)
                return v
            self.raise_('KeyError', k)
        f = self.fixed_key(h, k)
        if f is not None:
            return h.fixed[f]
        t = h.m.t
        ke = self.z(k, t.k)
        if self.branch(z3.Select(t.has(h.m.e), ke)):
            return self.map_value(o, ke)
        if h.default is not None:
            v = self.call(h.default, [], {})
            self.setitem(o, k, v)
            return self.map_value(o, ke)
        self.raise_('KeyError', k)

    def map_value(self, o, ke):
        """the value under a key of a symbolic dictionary"""
        h = self.h(o)
        t = h.m.t
        if isinstance(t.v, TSeq):
            return self.alloc(HView(self, o, ke, h.ver))
        return self.val(t.v, z3.Select(t.val(h.m.e), ke))

    def setitem(self, o, i, v):
        if isinstance(o, Sym) and isinstance(o.t, TOpt):
            o = self.unopt(o)
        if isinstance(o, Ref):
            h = self.hmut(o)
            if isinstance(h, HInst):
                if h.cls.lookup('__setitem__')[0] is not None:
                    self.call(self.getattr(o, '__setitem__'), [i, v], {})
                    return
                self.raise_('TypeError', 'item assignment')
            if isinstance(h, HList):
                if isinstance(h.content, list) and isinstance(i, int):
                    try:
                        h.content[i] = v
                    except IndexError:
                        self.raise_('IndexError', 'assignment index')
                    return
                if isinstance(h.content, list) and isinstance(i, slice):
                    c = self.content(v)
                    if isinstance(c, list):
                        h.content[i] = c
                        return
                if isinstance(h.content, Sym) and not isinstance(i, slice):
                    t = h.content.t
                    n = self.len(t, h.content.e)
                    ie = self.z(i, TInt)
                    if not self.branch(z3.And(ie < n, ie >= -n)):
                        self.raise_('IndexError', 'assignment index')
                    ie = z3.If(ie < 0, ie + n, ie)
                    self.hmut(o).content = Sym(t, self.updated(
                        t, h.content.e, ie, self.z(v, t.el)))
                    return
                raise Unsupported('list item assignment')
            if isinstance(h, HDict):
                self.dict_setitem(o, h, i, v)
                self.dict_changed(o)
                return
        if isinstance(o, Sym) and isinstance(o.t, TObj) and \
                'setitem' in o.t.hooks:
            o.t.hooks['setitem'](self, o, i, v)
            return
        if isinstance(o, TermV):
            hk = self.externals.get('setitem')
            if hk is not None and hk(self, o, i, v) is not None:
                return
        raise Unsupported('%r[%r] = ' % (o, i))

    def dict_changed(self, o):
        h = self.h(o)
        if h.onupdate is not None:
            h.onupdate(self, h)

    def dict_setitem(self, o, h, k, v):
        if h.d is not None:
            if self.hashable(k) and not isinstance(k, Ref) and all(
                    self.eq(k, kk) in (True, False) for kk in h.d):
                h.d[k] = v
                return
            if self.hashable(k) and isinstance(k, Ref):
                h.d[k] = v
                return
            # symbolic key: same as an existing one?
            if len(h.d) <= 6 and not self.dict_symbolic:
                for kk in list(h.d):
                    e = self.eq(k, kk)
                    if e is False:
                        continue
                    if self.branch(e):
                        self.hmut(o).d[kk] = v
                        return
                self.hmut(o).d[k] = v
                return
            k0 = v0 = TBot
            for kk, vv in h.d.items():
                k0 = join(k0, self.typ(kk))
                v0 = join(v0, self.typ(vv))
            t = TMap(join(k0, self.typ(k)), join(v0, self.typ(v)))
            if isinstance(t.v, TSeq) and any(
                    self.refcounts().get(x.oid, 0) > 1
                    for x in h.d.values() if isinstance(x, Ref)):
                h.leaked = True
            h.m = Sym(t, self.z(o, t))
            h.keys = Sym(TSeq(t.k), self.z(tuple(h.d), TSeq(t.k)))
            h.d = None
        f = self.fixed_key(h, k)
        if f is not None:
            self.hmut(o).fixed[f] = v
            return
        t = h.m.t
        if isinstance(t.v, TSeq) and isinstance(v, Ref) and (
                isinstance(self.h(v), HView) or
                self.refcounts().get(v.oid, 0) > 0):
            h.leaked = True
        try:
            ke, ve = self.z(k, t.k, 'deep'), self.z(v, t.v, 'deep')
        except JoinError:
            if not isinstance(k, str) or t.k is not TStr or h.ordered:
                raise
            # a value of another type: kept apart
            h = self.hmut(o)
            h.fixed[k] = v
            h.keys = None
            return
        h.ver = self.fresh_id()
        has = t.has(h.m.e)
        if h.keys is not None:
            kt = h.keys.t
            h.keys = Sym(kt, z3.If(z3.Select(has, ke), h.keys.e,
                                   self.snoc(kt, h.keys.e,
                                             self.z(k, kt.el))))
        h.m = Sym(t, t.mk(z3.Store(has, ke, z3.BoolVal(True)),
                          z3.Store(t.val(h.m.e), ke, ve)))

    def delitem(self, o, i):
        if isinstance(o, Ref):
            h = self.hmut(o)
            if isinstance(h, HInst):
                if h.cls.lookup('__delitem__')[0] is not None:
                    self.call(self.getattr(o, '__delitem__'), [i], {})
                    return
            if isinstance(h, HList) and isinstance(h.content, list) and \
                    isinstance(i, (int, slice)):
                try:
                    del h.content[i]
                except IndexError:
                    self.raise_('IndexError', 'deletion index')
                return
            if isinstance(h, HList) and isinstance(h.content, Sym) and \
                    not isinstance(i, slice):
                t = h.content.t
                n = self.len(t, h.content.e)
                ie = self.z(i, TInt)
                if not self.branch(z3.And(ie < n, ie >= -n)):
                    self.raise_('IndexError', 'deletion index')
                ie = z3.If(ie < 0, ie + n, ie)
                self.hmut(o).content = Sym(t, self.removed(
                    t, h.content.e, ie))
                return
            if isinstance(h, HDict):
                if h.d is not None:
                    for kk in list(h.d):
                        e = self.eq(i, kk)
                        if e is False:
                            continue
                        if self.branch(e):
                            del self.hmut(o).d[kk]
                            self.dict_changed(o)
                            return
                    self.raise_('KeyError', i)
                f = self.fixed_key(h, i)
                if f is not None:
                    h = self.hmut(o)
                    del h.fixed[f]
                    h.m = Sym(h.m.t, h.m.t.mk(z3.Store(
                        h.m.t.has(h.m.e), self.z(f, h.m.t.k),
                        z3.BoolVal(False)), h.m.t.val(h.m.e)))
                    return
                t = h.m.t
                ke = self.z(i, t.k)
                if not self.branch(z3.Select(t.has(h.m.e), ke)):
                    self.raise_('KeyError', i)
                h = self.hmut(o)
                h.keys = None
                h.ver = self.fresh_id()
                h.m = Sym(t, t.mk(z3.Store(t.has(h.m.e), ke,
                                           z3.BoolVal(False)),
                                  t.val(h.m.e)))
                self.dict_changed(o)
                return
        raise Unsupported('del %r[%r]' % (o, i))

    def split_at(self, t, e, i, item=True):
        """e == a ++ [y] ++ b with len(a) == i (item), or e == a ++ b"""
        key = ('split_at', t.name, e.get_id(), i.get_id(), item)
        if key in self.st.ghost:
            return self.st.ghost[key][0]
        for k, v in self.st.ghost.items():
            if k[0] == 'split_at' and k[1:3] == key[1:3] and \
                    k[4] == item and self.valid(v[1] == i)[0] == 'proved':
                return v[0]
        self._keep += [e, i]
        a, b = self.fresh('before', t), self.fresh('after', t)
        self.assume(self.len(t, a.e) == i)
        if item:
            y = self.nthfold(t)(e, i)
            self.reg(t, t.rawsnoc(a.e, y))
            whole = self.cat(t, t.rawsnoc(a.e, y), b.e)
            r = (a.e, y, b.e)
        else:
            whole = self.cat(t, a.e, b.e)
            r = (a.e, b.e)
        self.assume(e == whole)
        self.assume(self.len(t, e) == self.len(t, whole))
        for f, ps in self.fold_insts(t):
            if f.hom_ok:
                self.assume(f(e, *ps) == f(whole, *ps))
        self.st.ghost[key] = (r, i)
        return r

    def updated(self, t, e, i, x):
        """the list e with x in place of the item at position i"""
        a, y, b = self.split_at(t, e, i)
        return self.cat(t, t.rawsnoc(a, x), b)

    def removed(self, t, e, i):
        a, y, b = self.split_at(t, e, i)
        return self.cat(t, a, b)

    def inserted(self, t, e, i, x):
        a, b = self.split_at(t, e, i, False)
        return self.cat(t, t.rawsnoc(a, x), b)


class Filter(object):
    """the function f over sequences with
         f(nil) = nil,  f(snoc(p, x)) = f(p) ++ [the elements made of x]
    where the guard of `alts` that holds for x decides which these are"""
    def __init__(self, name, dom, ret, x, qs, alts):
        self.name, self.dom, self.ret = name, dom, ret
        self.x, self.qs, self.alts = x, qs, alts
        self.one_to_one = len(alts) == 1 and len(alts[0][1]) == 1
        self.node = {'_': 'For', 'lineno': None}
        self.fn = z3.Function(name, *([dom.sort()] + [q.sort() for q in qs] +
                                      [ret.sort()]))

    def at(self, e, x, ps):
        return z3.substitute(e, (self.x, x), *zip(self.qs, ps))

    def __call__(self, s, *ps):
        k, parts = seq_parts(self.dom, s)
        if k == 'nil':
            return self.ret.nil
        if k == 'snoc':
            acc = self(parts[0], *ps)

            def with_(es):
                r = acc
                for e in es:
                    r = self.ret.rawsnoc(r, self.at(e, parts[1], ps))
                return r
            r = with_(self.alts[-1][1])
            for g, es in reversed(self.alts[:-1]):
                r = z3.If(self.at(g, parts[1], ps), with_(es), r)
            return r
        return self.fn(s, *ps)


class StopZip(Exception):
    pass


class Unbound(object):
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = Unbound()


class Box(object):
    """compares by identity/structure of the held value"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and same(self.v, o.v)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 1


class Raw(object):
    """a leaf of a raw z3 sort"""
    def __init__(self, sort):
        self._s = sort
        self.name = 'raw:%s' % sort

    def sort(self):
        return self._s

    def __eq__(self, o):
        return isinstance(o, Raw) and o.name == self.name

    def __hash__(self):
        return hash(self.name)
