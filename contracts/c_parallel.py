"""parallel.py: map_reduce, TaskManager, safely_call, pickle_sequence,
log_percent_gen."""
import re

from .base import *     # noqa
from pydv.interp import StarSym     # after base: the engine first

Arg, Out = TObj('Arg'), TObj('Out')
Argl = TSeq(Arg)
Args = TSeq(Argl)
Etype = TObj('Etype', hooks={'truth': lambda E, o: True})
Outcome = TTup(Out, TOpt(Etype))
Outcomes = TSeq(Outcome)
Outs = TSeq(Out)
Acc = TObj('Acc')
outf = z3.Function('outcome', Args.sort(), Outcome.sort())
# a future and the outcome it will have
Fut = TObj('Future', hooks={'notnone': True})
futf = z3.Function('future', Args.sort(), Fut.sort())
resf = z3.Function('outcome of the future', Fut.sort(), Outcome.sort())


def outcome_of(E, o, a=(), k={}):
    e = resf(o.e)
    return (Sym(Out, Outcome.get(e, 0)), Sym(TOpt(Etype), Outcome.get(e, 1)))


Fut.meths = {'result': outcome_of}
aggf = z3.Function('agg', Acc.sort(), Out.sort(), Acc.sort())


class Run(object):
    """sequential map-reduce over any arguments: the outcome of a call may
    depend on all the calls made before (no purity is assumed); with
    `dist` the calls are submitted to the executor, which gives futures, and
    these are completed in any order"""

    def __init__(self, E, dist=False):
        self.E, self.dist = E, dist
        El = self.El = Fut if dist else Outcome
        Outcomes = self.Outcomes = TSeq(El)
        outf_ = futf if dist else outf
        of = resf if dist else (lambda o: o)
        self.A = E.const('A', Args)
        self.acc0 = E.const('acc0', Acc)
        self.outcomes = E.add_fold(Fold(
            'outcomes', Argl, Outcomes, Outcomes.nil, lambda a, x, p:
            Outcomes.rawsnoc(a, outf_(Args.rawsnoc(p, x)))))
        bad = lambda o: z3.Not(TOpt(Etype).is_none(Outcome.get(of(o), 1)))
        val = lambda o: Outcome.get(of(o), 0)
        FF = self.FF = TStruct('first_failure', [
            ('failed', TBool), ('text', Out), ('before', Outs)])
        no = z3.Const('no_text', Out.sort())

        def step(a, o, p):
            return z3.If(FF.get(a, 'failed'), a, z3.If(bad(o), FF.mk(
                failed=T, text=val(o), before=FF.get(a, 'before')), FF.mk(
                failed=F, text=no, before=Outs.rawsnoc(FF.get(
                    a, 'before'), val(o)))))
        self.failed = E.add_fold(Fold(
            'failed', El, TBool, F, lambda a, o, p: z3.Or(a, bad(o)),
            hom=lambda a, b: z3.Or(a, b)))
        self.text = E.add_fold(Fold(
            'text', El, Out, no, lambda a, o, p: z3.If(
                self.failed(p), a, z3.If(bad(o), val(o), no))))
        self.values = E.add_fold(Fold(
            'values', El, Outs, Outs.nil, lambda a, o, p:
            Outs.rawsnoc(a, val(o))))
        self.before = E.add_fold(Fold(
            'before', El, Outs, Outs.nil, lambda a, o, p: z3.If(
                z3.Or(self.failed(p), bad(o)), a, Outs.rawsnoc(a, val(o)))))
        self.acc = E.add_fold(Fold(
            'accumulated', El, Acc, self.acc0.e,
            lambda a, o, p: aggf(a, val(o))))
        self.ok_pre = E.induct(
            'no failure: all the results are before the first failure',
            Outcomes, lambda s: z3.Implies(z3.Not(self.failed(s)),
                                           self.before(s) ==
                                           self.values(s)))

        # what follows the first failure does not matter
        def at(E, seq, p, x, rest):
            if seq.t == Outcomes:
                E.assume(z3.Implies(self.failed(
                    Outcomes.rawsnoc(p, x)), z3.And(
                        self.text(seq.e) == self.text(
                            Outcomes.rawsnoc(p, x)),
                        self.before(seq.e) == self.before(
                            Outcomes.rawsnoc(p, x)))))
        r = z3.Const('head', Outcomes.sort())
        E.induct('what follows the first failure does not matter', Outcomes,
                 lambda s: z3.Implies(self.failed(r), z3.And(
                     self.failed(E.cat(Outcomes, r, s)),
                     self.text(E.cat(Outcomes, r, s)) == self.text(r),
                     self.before(E.cat(Outcomes, r, s)) == self.before(r))))
        E.split_hooks.append(at)
        if dist:
            self.executor()

    def setup(self):
        E = self.E
        self.calls, self.aggd = E.new_list([]), E.new_list([])
        self.fn = UFun('function', None)

        def safely_call(E, args, kw):
            """the contract of safely_call (C37): one call, an outcome"""
            E.prove('the function of the user is called',
                    args[0] is self.fn)
            E.prove('without pickling', not kw and len(args) == 2)
            E.call(E.getattr(self.calls, 'append'), [args[1]])
            o = outf(E.z(self.calls, Args))
            return (Sym(Out, Outcome.get(o, 0)),
                    Sym(TOpt(Etype), Outcome.get(o, 1)))
        E.contracts['parallel.safely_call'] = safely_call
        E.contracts['parallel.check_mem_usage'] = lambda E, a, k: None
        E.contracts['parallel.no_distribute'] = lambda E, a, k: not self.dist
        if self.dist:
            E.contracts['parallel.safely_call'] = lambda E, a, k: E.prove(
                'nothing is called in this process', False)
            # as many as were submitted
            E.assume(E.len(self.Outcomes, self.completed) == E.len(
                self.Outcomes, self.outcomes(self.A.e)))

        def progress_gen(E, args, kw):
            """the contract of log_percent_gen: it can be advanced once
            plus once per task"""
            todo = args[1]
            self.todo = todo
            cell = E.alloc(HInst(OBJECT, {'n': 0}))

            def nxt(E, o, a, k):
                n = E.z(E.getattr(cell, 'n'), TInt)
                E.prove('progress is not advanced beyond the tasks',
                        n <= E.z(todo, TInt))
                E.setattr(cell, 'n', Sym(TInt, n + 1))
                return Sym(TInt, n)
            G = TObj('Progress', meths={'next': nxt})
            return E.const('progress_gen', G)
        E.contracts['parallel.log_percent_gen'] = progress_gen

        def agg(E, a, k):
            E.call(E.getattr(self.aggd, 'append'), [a[1]])
            return Sym(Acc, aggf(E.z(a[0], Acc), E.z(a[1], Out)))
        self.agg = UFun('agg', agg)

    def executor(self):
        """the trusted contract of concurrent.futures: what is submitted is
        called in some process and its outcome is the result of the future;
        as_completed gives the same futures in any order"""
        E = self.E
        def submit(E, o, a, kw):
            E.prove('a safe call of the function of the user is submitted',
                    len(a) == 3 and not kw and a[1] is self.fn and
                    a[0] == E.lookup_path('parallel.safely_call'))
            E.call(E.getattr(self.calls, 'append'), [a[2]])
            return Sym(Fut, futf(E.z(self.calls, Args)))
        Pool = TObj('Executor', meths={'submit': submit},
                    hooks={'notnone': True})
        E.externals['concurrent.futures.ProcessPoolExecutor'] = \
            lambda E, a, k: E.const('executor', Pool)
        D = E.const('completed', TSeq(Fut))

        def completed(E, a, kw):
            E.prove('all the futures are waited for', len(a) == 1 and not kw
                    and E.z(a[0], TSeq(Fut)) == self.outcomes(self.A.e))
            return E.call(E.builtins['iter'], [E.new_list(D)])
        E.externals['concurrent.futures.as_completed'] = completed
        self.completed = D.e
        # made when the module is imported
        E.modules.pop('openquake.commonlib.parallel', None)

    def prove(self, fn, result):
        E = self.E
        R = self.completed if self.dist else self.outcomes(self.A.e)
        try:
            v = fn()
        except PyExc as e:
            E.prove('fails with a RuntimeError', is_exc(E, e, 'RuntimeError'))
            E.prove('fails only if a call failed', self.failed(R))
            a = E.h(e.value).attrs.get('args')
            E.prove('one message', len(a) == 1)
            E.prove('the text of the first failure',
                    E.z(a[0], Out) == self.text(R))
            E.prove('the results before it are aggregated, none after',
                    E.z(self.aggd, Outs) == self.before(R))
            reach(E, 'failed')
            return
        E.prove('returns only if no call failed', z3.Not(self.failed(R)))
        E.prove('the function was called once per argument tuple, in order',
                E.z(self.calls, Args) == self.A.e)
        result(v, R)
        reach(E, 'returned')


def t_map_reduce(E, dist=False):
    r = Run(E, dist)
    f = E.lookup_path('parallel.map_reduce')

    def run():
        r.setup()
        nm = E.const('name', TStr)

        def result(v, R):
            E.prove('the fold of the results from the initial value',
                    E.z(v, Acc) == r.acc(R))
            E.assume(r.ok_pre(R))
            E.prove('each result is aggregated once, in order',
                    E.z(r.aggd, Outs) == r.values(R))
        r.prove(lambda: E.call(f, [r.fn, r.A, r.agg, r.acc0, nm]), result)
    return run


def manager(E, r):
    tm = E.call(E.lookup_path('parallel.TaskManager'), [
        r.fn, UFun('progress', lambda E, a, k: None), E.const('name', TStr)])
    return tm


def t_submit(E, dist=False):
    """submit: one call, appended to the outcomes of the calls before"""
    r = Run(E, dist)
    Outcomes, outf = r.Outcomes, futf if dist else globals()['outf']
    H = E.const('H', Outcomes)
    a = E.const('args', Argl)

    def run():
        r.setup()
        tm = manager(E, r)
        res = [k for k, v in E.h(tm).attrs.items() if isinstance(v, Ref) and
               isinstance(E.h(v), HList)]
        E.prove('one list of results', len(res) == 1)
        E.setattr(tm, res[0], E.new_list(H))
        E.call(E.getattr(tm, 'submit'), [StarSym(a)])
        E.prove('called once with the arguments',
                E.z(r.calls, Args) == Args.rawsnoc(Args.nil, a.e))
        E.prove('the outcome is appended',
                E.z(E.getattr(tm, res[0]), Outcomes) == Outcomes.rawsnoc(
                    H.e, outf(Args.rawsnoc(Args.nil, a.e))))
        reach(E, 'end')
    return run


def t_wait(E, dist=False):
    r = Run(E, dist)
    Outcomes = r.Outcomes
    n = E.add_fold(Fold('number', r.El, TInt, z3.IntVal(0),
                        lambda a, o, p: a + 1))
    lem = E.induct('as many outcomes as calls', Args, lambda s: E.len(
        Outcomes, r.outcomes(s)) == E.len(Args, s))

    def run():
        r.setup()
        tm = manager(E, r)
        R = r.outcomes(r.A.e)
        E.assume(lem(r.A.e))
        res = [k for k, v in E.h(tm).attrs.items() if isinstance(v, Ref) and
               isinstance(E.h(v), HList)]
        E.prove('one list of results', len(res) == 1)
        E.setattr(tm, res[0], E.new_list(Sym(Outcomes, R)))
        if dist:
            D = r.completed
        try:
            v = E.call(E.getattr(tm, 'wait'), [])
        except PyExc as e:
            E.prove('fails with a RuntimeError', is_exc(E, e, 'RuntimeError'))
            E.prove('fails only if a call failed', r.failed(D if dist else R))
            reach(E, 'failed')
            return
        E.prove('returns only if no call failed', z3.Not(r.failed(D if dist else R)))
        E.prove('waiting returns the number of tasks', E.z(v, TInt) ==
                E.len(Args, r.A.e))
        reach(E, 'returned')
    return run


def t_no_distribute(E):
    """the switch: sequential exactly for 1, true and yes in any case"""
    v = E.const('v', TStr)
    f = E.lookup_path('parallel.no_distribute')

    def run():
        low = z3.Function('str_lower', z3.StringSort(), z3.StringSort())

        def get(E, args, kw):
            E.prove('the variable is OQ_NO_DISTRIBUTE',
                    args[-2:][0] == 'OQ_NO_DISTRIBUTE' or
                    args[-1] == 'OQ_NO_DISTRIBUTE')
            return v
        E.externals['os.environ.get'] = get
        r = E.truth_e(E.call(f, []))
        lv = E.z(E.call(E.getattr(v, 'lower'), []), TStr)
        E.prove('sequential exactly for 1, true and yes', r == z3.Or(
            *[lv == z3.StringVal(x) for x in ('1', 'true', 'yes')]))
        reach(E, 'end')
    return run


# ---------------------------------------------------------- safely_call
def t_safely_call(E):
    f = E.lookup_path('parallel.safely_call')
    x = E.const('args', Argl)
    ret = E.const('ret', Out)
    msg = E.const('msg', TStr)
    tb = E.const('tb', TSeq(TStr))
    Pick = TObj('PickledArg')
    unp = z3.Function('unpickled', Pick.sort(), Arg.sort())
    Pick.meths['unpickle'] = lambda E, o, a, k: Sym(Arg, unp(o.e))
    P = E.const('pickled', TSeq(Pick))
    unps = E.add_fold(Fold('unpickled_all', Pick, Argl, Argl.nil,
                           lambda a, o, p: Argl.rawsnoc(a, unp(o))))

    def run():
        kind = E.choose(5)
        pickle = E.choose(2) == 1
        ncalls = []
        base = [None, 'Exception', 'BaseException', 'Exception',
                'BaseException'][kind]

        def text(E, a, k):
            if kind > 2:
                E.raise_('ValueError', 'no text')
            return msg
        cls = None
        if base:
            cls = E.make_class('SomeError', [EXC[base]], {
                '__str__': UFun('__str__', text)},
                E.lookup_path('parallel.Pickled').module)

        def func(E, args, kw):
            ncalls.append(args)
            if cls is None:
                return ret
            raise PyExc(E.call(cls, []))
        E.externals['traceback.format_tb'] = lambda E, a, k: tb
        made = []

        def pickled(E, cls, args, kw):
            made.append(args[0])
            return E.alloc(HInst(cls, {'content': args[0]}))
        E.construct['Pickled'] = pickled
        if pickle:
            v = E.call(f, [UFun('func', func), P], {'pickle': True})
            E.prove('the pair is returned pickled', len(made) == 1 and
                    isinstance(v, Ref) and E.h(v).attrs.get('content') ==
                    made[0])
            v = made[0]
        else:
            v = E.call(f, [UFun('func', func), x])
        E.prove('called once', len(ncalls) == 1 and
                len(ncalls[0]) == 1)
        E.prove('with the arguments', E.z(E.new_list(
            ncalls[0][0].seq), Argl) == (unps(P.e) if pickle else x.e))
        a, b = E.unpack(v, 2)
        if cls is None:
            E.prove('the result', E.z(a, Out) == ret.e)
            E.prove('no exception type', b is None)
            reach(E, 'returned')
            return
        E.prove('the class of the exception', b == cls)
        t = E.z(a, TStr)
        tbs = E.z(E.call(E.getattr('', 'join'), [tb]), TStr)
        E.prove('the text has the traceback', z3.Contains(t, tbs))
        E.prove('the text names the exception',
                z3.Contains(t, z3.StringVal('SomeError')))
        if kind <= 2:
            E.prove('the text has the message', z3.Contains(t, msg.e))
        reach(E, 'failed')
    return run


# ------------------------------------------------------- pickle_sequence
Obj = TObj('Obj')
Objs = TSeq(Obj)
isp = z3.Function('is_pickled', Obj.sort(), z3.BoolSort())
pick = z3.Function('pickled', Obj.sort(), Obj.sort())


def t_pickle_sequence(E):
    S = E.const('S', Objs)
    f = E.lookup_path('parallel.pickle_sequence')
    Pickled = E.lookup_path('parallel.Pickled')
    tgt = lambda o: z3.If(isp(o), o, pick(o))
    idf = z3.Function('id_Obj', Obj.sort(), z3.IntSort())
    inv = z3.Function('object_with_id', z3.IntSort(), Obj.sort())
    o = z3.Const('o', Obj.sort())
    want = E.add_fold(Fold('all_pickled', Obj, Objs, Objs.nil, lambda a, x,
                           p: Objs.rawsnoc(a, tgt(x))))
    C = TMap(TInt, Obj)
    cache = E.add_fold(Fold(
        'cache', Obj, C, C.mk(z3.K(z3.IntSort(), F), z3.K(
            z3.IntSort(), E.default_of(Obj))), lambda a, x, p: z3.If(
                z3.Select(C.has(a), idf(x)), a, C.mk(
                    z3.Store(C.has(a), idf(x), T),
                    z3.Store(C.val(a), idf(x), tgt(x))))))
    made = E.add_fold(Fold(
        'made', Obj, Objs, Objs.nil, lambda a, x, p: z3.If(
            z3.Or(isp(x), z3.Select(C.has(cache(p)), idf(x))), a,
            Objs.rawsnoc(a, x))))
    # the same without what is already pickled
    less = E.add_fold(Fold('cache of what was made', Obj, C, C.mk(
        z3.K(z3.IntSort(), F), z3.K(z3.IntSort(), E.default_of(Obj))),
        lambda a, x, p: z3.If(z3.Or(isp(x), z3.Select(
            C.has(a), idf(x))), a, C.mk(
                z3.Store(C.has(a), idf(x), T),
                z3.Store(C.val(a), idf(x), pick(x))))))
    inj = z3.ForAll([o], inv(idf(o)) == o, patterns=[idf(o)])
    lem = E.induct('the cache has the pickled objects', Objs, lambda s:
                   z3.Implies(inj, z3.ForAll([o], z3.Implies(
                       z3.Select(C.has(cache(s)), idf(o)),
                       z3.Select(C.val(cache(s)), idf(o)) == tgt(o)))))
    lem2 = E.induct('what was made is in both caches', Objs, lambda s:
                    z3.Implies(inj, z3.ForAll([o], z3.Implies(
                        z3.Not(isp(o)), z3.And(
                            z3.Select(C.has(less(s)), idf(o)) ==
                            z3.Select(C.has(cache(s)), idf(o)),
                            z3.Implies(
                                z3.Select(C.has(less(s)), idf(o)),
                                z3.Select(C.val(less(s)), idf(o)) ==
                                pick(o)))))))
    # every object made is in the cache; none is made twice
    mem = E.add_fold(Fold('occurs', Obj, TInt, z3.IntVal(0), lambda a, x, p,
                          v: a + z3.If(x == v, 1, 0), params=[Obj],
                          auto=False))
    twice = E.induct('no object is pickled twice', Objs, lambda s:
                     z3.Implies(inj, z3.ForAll([o], z3.And(
                         mem(made(s), o) <= 1, mem(made(s), o) >= 0,
                         z3.Implies(mem(made(s), o) == 1, z3.Select(C.has(
                             cache(s)), idf(o)))))))

    def run():
        log = E.new_list([])

        def isinst(E, v, cls):
            assert cls == Pickled
            return isp(v.e)
        Obj.hooks['isinstance'] = isinst

        def construct(E, cls, args, kw):
            """the contract of Pickled (proved in another task)"""
            E.call(E.getattr(log, 'append'), [args[0]])
            return Sym(Obj, pick(E.z(args[0], Obj)))
        E.construct['Pickled'] = construct

        def at(E, seq, p, x, rest):
            if seq.t == Objs:
                # the instance of the lemma at x
                E.assume(z3.Implies(
                    z3.Select(C.has(cache(p)), idf(x)),
                    z3.Select(C.val(cache(p)), idf(x)) == tgt(x)))
                E.assume(z3.Implies(z3.Not(isp(x)), z3.And(
                    z3.Select(C.has(less(p)), idf(x)) ==
                    z3.Select(C.has(cache(p)), idf(x)), z3.Implies(
                        z3.Select(C.has(less(p)), idf(x)),
                        z3.Select(C.val(less(p)), idf(x)) == pick(x)))))
        E.split_hooks.append(at)
        try:
            r = E.call(f, [S])
        finally:
            E.split_hooks.remove(at)
        E.prove('one pickled object per element, in order; what is already '
                'pickled is kept', E.z(r, Objs) == want(S.e))
        E.prove('pickled: the objects that are not yet, at their first '
                'occurrence', E.z(log, Objs) == made(S.e))
        v = E.const('v', Obj)
        # the instance of the lemma at v
        E.assume(z3.And(mem(made(S.e), v.e) <= 1, mem(made(S.e), v.e) >= 0))
        E.prove('no object is pickled twice', mem(E.z(log, Objs), v.e) <= 1)
        reach(E, 'end')
    return run


def t_pickled(E):
    """Pickled(x) unpickles to what cPickle makes of it"""
    x = E.const('x', Obj)
    Bytes = TObj('Bytes')
    dumps = z3.Function('dumps', Obj.sort(), z3.StringSort())
    loads = z3.Function('loads', z3.StringSort(), Obj.sort())
    ocls = TObj('ObjClass', attrs={'__name__': TStr})

    def run():
        Obj.attrs['__class__'] = ocls
        E.externals['cPickle.dumps'] = lambda E, a, k: Sym(
            TStr, dumps(E.z(a[0], Obj)))
        E.externals['cPickle.loads'] = lambda E, a, k: Sym(
            Obj, loads(E.z(a[0], TStr)))
        p = E.call(E.lookup_path('parallel.Pickled'), [x])
        E.prove('unpickling gives what cPickle restores', E.z(E.call(
            E.getattr(p, 'unpickle'), []), Obj) == loads(dumps(x.e)))
        E.prove('the length of the pickled string', E.z(E.call(
            E.builtins['len'], [p]), TInt) == z3.Length(dumps(x.e)))
        reach(E, 'end')
    return run


# ------------------------------------------------------- log_percent_gen
def t_progress(E):
    todo = E.const('todo', TInt)
    f = E.lookup_path('parallel.log_percent_gen')
    pct = z3.Function('percent', z3.IntSort(), z3.IntSort())
    t = todo.e

    def defined(k):
        """percent(k) = integer part of 100 k / todo"""
        return z3.Implies(t > 0, z3.And(t * pct(k) <= 100 * k,
                                        100 * k < t * pct(k) + t))
    log = {}
    TInts = TSeq(TInt)

    def tmpl(E, seq, L0, node):
        out = []
        ints = [p for p, (ty, e0) in L0.items() if ty is TInt]
        cur = lambda L, p: L[p][1]
        for a in ints:
            out.append(('1 <= %s' % a, lambda p, L, a=a: cur(L, a) >= 1))
            out.append(('0 <= %s' % a, lambda p, L, a=a: cur(L, a) >= 0))
            out.append(('%s <= max(todo, 1)' % a, lambda p, L, a=a: cur(
                L, a) <= z3.If(t > 1, t, 1)))
            out.append(('%s is below 100' % a,
                        lambda p, L, a=a: cur(L, a) < 100))
            for b in ints:
                if a != b:
                    out.append(('%s = %s' % (a, b), lambda p, L, a=a, b=b:
                                cur(L, a) == cur(L, b)))
                    out.append(('%s = percent(%s - 1)' % (a, b),
                                lambda p, L, a=a, b=b: cur(L, a) == pct(
                                    cur(L, b) - 1)))
                    out.append(('%s = percent(%s)' % (a, b),
                                lambda p, L, a=a, b=b: cur(L, a) == pct(
                                    cur(L, b))))
        return out

    def run():
        E.templates.append(tmpl)
        cell = E.alloc(HInst(OBJECT, {
            'last': 0, 'yields': 0, 'phase': 0}))
        get = lambda a: E.z(E.h(cell).attrs[a], TInt)
        E.assume(t >= 1)
        # percent is defined by the instances of `defined` assumed below
        name = E.const('name', TStr)

        def progress(E, args, kw):
            fmt = args[0]
            E.prove('a format', isinstance(fmt, str))
            nums = [a for a in args[1:] if E.kind(a) in ('int', 'num') or
                    isinstance(a, Sym) and a.t is TInt]
            text = fmt.replace('%%', '\0')
            if '\0' not in text:
                E.prove('the number of tasks is announced first', z3.And(
                    get('phase') == 0, get('yields') == 0))
                E.prove('the number of tasks is announced', len(nums) == 1
                        and E.z(nums[0], TInt) == t)
                E.setattr(cell, 'phase', 1)
                return
            m = re.search(r'(\d+)\0', text)
            E.prove('after the number of tasks', get('phase') == 1)
            n = z3.IntVal(m.group(1)) if m else E.z(nums[-1], TInt)
            done = get('yields')
            E.assume(z3.And(defined(done), defined(done - 1)))
            E.prove('the percentages increase strictly', n > get('last'))
            E.prove('the integer part of the share of tasks done',
                    n == pct(done))
            if m:
                E.prove('100 only at the end', done == t)
                E.setattr(cell, 'phase', 2)
            else:
                E.prove('below 100', n < 100)
            E.setattr(cell, 'last', Sym(TInt, n))

        def body():
            """what is announced when the generator stops the k-th time"""
            done = get('yields')
            E.assume(defined(done))
            E.assume(defined(done - 1))
            E.prove('the announced percentage is that of the tasks done',
                    get('last') == z3.If(done == 0, 0, pct(done)))
            E.prove('100 at the end', (get('phase') == 2) == (done == t))
            E.setattr(cell, 'yields', Sym(TInt, done + 1))
        gen = E.call(f, [name, todo, UFun('progress', progress)])
        E.loop_gen(E.h(gen), lambda v: None, body, None)
        E.prove('it can be advanced once plus once per task',
                get('yields') == t + 1)
        reach(E, 'end')
    return run


G = ['parallel']
TASKS = {
    'C36': [Task('map_reduce', t_map_reduce, G,
                 covers=['returned', 'failed']),
            Task('submit', t_submit, G, covers=['end']),
            Task('wait', t_wait, G, covers=['returned', 'failed']),
            Task('no_distribute', t_no_distribute, G, covers=['end'])],
    'C40': [Task('distributed ' + n, lambda E, f=f: f(E, True), G, covers=c)
            for n, f, c in (
                ('map_reduce', t_map_reduce, ['returned', 'failed']),
                ('submit', t_submit, ['end']),
                ('wait', t_wait, ['returned', 'failed']))] + [
        Task('no_distribute', t_no_distribute, G, covers=['end'])],
    'C37': [Task('safely_call', t_safely_call, G,
                 covers=['returned', 'failed'])],
    'C38': [Task('pickle_sequence', t_pickle_sequence, G, covers=['end']),
            Task('Pickled', t_pickled, G, covers=['end'])],
    'C39': [Task('log_percent_gen', t_progress, G, covers=['end'])],
}
