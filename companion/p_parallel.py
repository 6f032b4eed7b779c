"""Map-reduce, safe calls, pickling, progress reports."""
import os
import cPickle
import logging
from run import raises
os.environ['OQ_NO_DISTRIBUTE'] = '1'
from openquake.commonlib import parallel as P

logging.disable(logging.CRITICAL)


class Custom(Exception):
    pass


class NoText(Exception):
    def __str__(self):
        raise ValueError('this exception has no text')


class Odd(Exception):
    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __str__(self):
        return '%s and %s' % (self.a, self.b)


class Old:
    pass


FAILURES = [ValueError('bad value'), KeyError('key'), Custom(), Odd(1, 'x'),
            ZeroDivisionError('50% of %s'), SystemExit(3), NoText('x'),
            KeyboardInterrupt(), StopIteration('s'), GeneratorExit(),
            UnicodeDecodeError('ascii', 'x', 0, 1, 'reason'),
            ValueError(u'caff\xe8'), IOError(2, 'missing'), Custom('a', 'b')]


class Failing(object):
    """fails on the arguments in `bad`"""
    def __init__(self, bad):
        self.bad, self.calls = bad, []
        self.__name__ = 'failing'

    def __call__(self, *args):
        self.calls.append(args)
        k = len(self.calls) - 1
        if k in self.bad:
            raise self.bad[k]
        return (k, args)


def env(value):
    if value is None:
        os.environ.pop('OQ_NO_DISTRIBUTE', None)
    else:
        os.environ['OQ_NO_DISTRIBUTE'] = value


def text_of(exc):
    try:
        return str(exc)
    except Exception:
        return None


def C36(ctx):
    ctx.rule = ('0..12 tasks with 0..3 failures of 14 kinds, fold by a '
                'non-commutative function')
    r = ctx.rng
    for trial in range(ctx.n(1200, 10000)):
        if not ctx.time_left():
            break
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        argss = [tuple(r.randrange(9) for _ in range(r.randrange(4)))
                 for _ in range(n)]
        bad = {}
        if r.random() < .5 and n:
            for _ in range(r.randrange(1, 4)):
                bad[r.randrange(n)] = r.choice(FAILURES)
        value = r.choice(['1', 'true', 'yes', 'True', 'YES'])
        mode = r.choice(['map', 'manager', 'wait'])
        it = r.choice([list, tuple, iter])
        res = r.choice([None, 0, '', (), 'r'])
        inp = (argss, dict((k, repr(v)) for k, v in bad.items()), value,
               mode, res)

        def f():
            env(value)
            fn = Failing(bad)
            if not bad and res != 'r':
                base = fn

                def fn(*args):
                    base(*args)
                    return res
                fn.calls = base.calls
            seen = []

            def agg(acc, x):
                seen.append(x)
                return acc + (x,)
            if mode == 'map':
                call = lambda: P.map_reduce(fn, it(argss), agg, ('acc',))
            else:
                log = []
                tm = P.TaskManager(fn, lambda *a: log.append(a), 'name')
                for a in argss:
                    tm.submit(*a)
                if fn.calls != argss:
                    return 'calls %r before aggregating' % fn.calls
                if mode == 'wait':
                    call = tm.wait
                else:
                    call = lambda: tm.aggregate_results(agg, ('acc',))
            first = min(bad) if bad else None
            try:
                got = call()
            except RuntimeError as e:
                if not bad:
                    return 'RuntimeError(%s) without failures' % e
                msg = text_of(bad[first])
                if bad[first].__class__.__name__ not in str(e) or \
                        msg and msg not in str(e):
                    return 'message %r for %r' % (str(e), bad[first])
                if 'p_parallel' not in str(e):
                    return 'no traceback in %r' % str(e)
                if mode != 'wait' and seen != [
                        (k, argss[k]) for k in range(first)]:
                    return 'aggregated %r, first failure at %d' % (
                        seen, first)
                return
            if bad:
                return 'no error, returned %r' % (got,)
            want = ('acc',) + tuple(
                res if res != 'r' else (k, a) for k, a in enumerate(argss))
            if mode == 'wait':
                want = n
            if got != want:
                return 'returned %r, expected %r' % (got, want)
            if fn.calls != argss:
                return 'calls %r' % (fn.calls,)
        ctx.check('map-reduce', inp, f)
    env('1')


def C40(ctx):
    ctx.rule = ('0..12 tasks with 0..3 failures of 14 kinds, submitted to a '
                'stand-in executor and completed in random order')
    from concurrent import futures
    r = ctx.rng
    for trial in range(ctx.n(1200, 10000)):
        if not ctx.time_left():
            break
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        argss = [tuple(r.randrange(9) for _ in range(r.randrange(4)))
                 for _ in range(n)]
        bad = {}
        if r.random() < .4 and n:
            for _ in range(r.randrange(1, 4)):
                bad[r.randrange(n)] = r.choice(FAILURES)
        value = r.choice([None, '', '0', 'false', 'no', 'n'])
        mode = r.choice(['map', 'manager', 'wait'])
        it = r.choice([list, tuple, iter])
        order = list(range(n))
        r.shuffle(order)
        # results of all kinds, false ones too
        ret = r.choice([None, [None, 0, '', (), False]])
        inp = (argss, dict((k, repr(v)) for k, v in bad.items()), value,
               mode, order, ret)
        what = lambda k: (k, argss[k]) if ret is None else ret[k % 5]

        def f():
            env(value)
            fn = Failing(bad)
            got = []
            task = fn
            if ret is not None:
                def task(*args):
                    k, _ = fn(*args)
                    return ret[k % 5]

            def completed(fs):
                got.append(len(fs))
                return [fs[i] for i in order]
            futures.ORDER = completed
            seen = []

            def agg(acc, x):
                seen.append(x)
                return acc + (x,)
            if mode == 'map':
                call = lambda: P.map_reduce(task, it(argss), agg, ('acc',))
            else:
                tm = P.TaskManager(task, lambda *a: None, 'name')
                for a in argss:
                    tm.submit(*a)
                if fn.calls != argss:
                    return 'calls %r before aggregating' % fn.calls
                if mode == 'wait':
                    call = tm.wait
                else:
                    call = lambda: tm.aggregate_results(agg, ('acc',))
            firsts = [k for k in order if k in bad]
            try:
                res = call()
            except RuntimeError as e:
                if not bad:
                    return 'RuntimeError(%s) without failures' % e
                exc = bad[firsts[0]]
                msg = text_of(exc)
                if exc.__class__.__name__ not in str(e) or \
                        msg and msg not in str(e):
                    return 'message %r for %r' % (str(e), exc)
                if 'p_parallel' not in str(e):
                    return 'no traceback in %r' % str(e)
                before = order[:order.index(firsts[0])]
                if mode != 'wait' and seen != map(what, before):
                    return 'aggregated %r, expected those of %r' % (
                        seen, before)
                return
            if bad:
                return 'no error, returned %r' % (res,)
            if got != [n]:
                return 'waited for %r futures of %d' % (got, n)
            want = n if mode == 'wait' else ('acc',) + tuple(
                map(what, order))
            if res != want:
                return 'returned %r, expected %r' % (res, want)
            if fn.calls != argss:
                return 'calls %r' % (fn.calls,)
        ctx.check('distributed map-reduce', inp, f)
        futures.ORDER = None
    env('1')


def C37(ctx):
    ctx.rule = 'functions returning or raising 14 kinds of exceptions'
    r = ctx.rng
    vals = [None, 0, '', (1, 2), ValueError('as a value'), [ValueError],
            {'a': 1}, 'text', ((), None), (None, ValueError)]
    for trial in range(ctx.n(1500, 10000)):
        if not ctx.time_left():
            break
        args = tuple(r.choice(vals[:4]) for _ in range(r.randrange(4)))
        pickled = r.random() < .4
        exc = r.choice(FAILURES) if r.random() < .5 else None
        if pickled and isinstance(exc, NoText):
            exc = None
        ret = r.choice(vals)
        inp = (args, pickled, repr(exc) if exc else None, repr(ret))

        def f():
            got = []

            def fn(*a):
                got.append(a)
                if exc is not None:
                    raise exc
                return ret
            if pickled:
                res = P.safely_call(fn, P.pickle_sequence(args), pickle=True)
                if not isinstance(res, P.Pickled):
                    return 'the result is not pickled: %r' % (res,)
                res = res.unpickle()
            else:
                res = P.safely_call(fn, args)
            if got != [args]:
                return 'called with %r' % (got,)
            if not isinstance(res, tuple) or len(res) != 2:
                return 'not a pair: %r' % (res,)
            out, etype = res
            if exc is None:
                if etype is not None:
                    return 'exception type %r for a result' % etype
                if repr(out) != repr(ret) or not pickled and out is not ret:
                    return 'result %r' % (out,)
                return
            if etype is not exc.__class__:
                return 'exception type %r, expected %r' % (
                    etype, exc.__class__)
            if not isinstance(out, basestring):
                return 'no text: %r' % (out,)
            msg = text_of(exc)
            if exc.__class__.__name__ not in out or msg and msg not in out:
                return 'text %r for %r' % (out, exc)
            if 'p_parallel' not in out or ' in fn' not in out:
                return 'no traceback in %r' % out
        ctx.check('safe call', inp, f)

    def old():
        def fn():
            raise Old()
        res = P.safely_call(fn, ())
        if res[1] is not Old or 'Old' not in res[0]:
            return 'old style exception: %r' % (res,)
    ctx.check('safe call', 'an exception of an old-style class', old)


class Counted(object):
    """counts how often it is pickled"""
    count = 0

    def __init__(self, x):
        self.x = x

    def __getstate__(self):
        Counted.count += 1
        return {'x': self.x}

    def __eq__(self, o):
        return isinstance(o, Counted) and self.x == o.x

    def __ne__(self, o):
        return not self == o


class Same(object):
    """all equal, all with the same hash"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1


def C38(ctx):
    ctx.rule = 'sequences of 0..9 objects with repetitions and pickled ones'
    r = ctx.rng
    for trial in range(ctx.n(1500, 10000)):
        if not ctx.time_left():
            break
        pool = [r.choice([
            lambda: r.randrange(3), lambda: [r.randrange(3)],
            lambda: 'x%d' % r.randrange(3), lambda: None,
            lambda: Counted(r.randrange(3)), lambda: (), lambda: {},
            lambda: Same(r.randrange(9)), lambda: 1.0, lambda: True,
            lambda: P.Pickled(r.randrange(3)), lambda: ValueError])()
            for _ in range(r.randrange(1, 5))]
        idx = [r.randrange(len(pool)) for _ in range(r.randrange(10))]
        it = r.choice([list, tuple, iter])

        def f():
            objs = [pool[i] for i in idx]
            Counted.count = 0
            out = P.pickle_sequence(it(objs))
            if len(out) != len(objs) or not isinstance(out, list):
                return '%d results for %d objects' % (len(out), len(objs))
            for i, (o, p) in enumerate(zip(objs, out)):
                if not isinstance(p, P.Pickled):
                    return 'element %d is %r' % (i, p)
                if isinstance(o, P.Pickled):
                    if p is not o:
                        return 'a pickled object was replaced'
                    continue
                u = p.unpickle()
                if type(u) is not type(o) or u != o or isinstance(
                        o, Same) and u.x != o.x:
                    return 'element %d unpickles to %r, not %r' % (i, u, o)
                if len(p) != len(cPickle.dumps(o, 2)) or \
                        p.clsname != o.__class__.__name__:
                    return 'length or class name of %d' % i
            for i, a in enumerate(objs):
                for j, b in enumerate(objs):
                    if a is b and out[i] is not out[j]:
                        return 'pickled twice: %d and %d' % (i, j)
            if Counted.count > len(set(id(o) for o in objs if isinstance(
                    o, Counted))):
                pass
            distinct = len(set(id(o) for o in objs if isinstance(
                o, Counted)))
            made = Counted.count - sum(1 for o in objs
                                       if isinstance(o, Counted))
            if made != distinct:
                return 'pickled %d times, expected %d' % (made, distinct)
        ctx.check('pickle_sequence', ([repr(x) for x in pool], idx), f)


def C39(ctx):
    ctx.rule = 'every number of tasks up to 400 (thorough: 3000), random more'
    r = ctx.rng
    todos = list(range(1, 301 if ctx.tier == 'quick' else 3000))
    todos += [r.randrange(300, 3000) for _ in range(20)]
    for todo in todos:
        if not ctx.time_left():
            break

        def f():
            log = []

            def progress(fmt, *args):
                log.append(fmt % args)
            gen = P.log_percent_gen('kind', todo, progress)
            last = 0
            for k in range(todo + 1):
                n = len(log)
                gen.next()
                new = log[n:]
                if k == 0:
                    if len(new) != 1 or str(todo) not in new[0] or \
                            'kind' not in new[0] or '%' in new[0]:
                        return 'announced %r' % new
                    continue
                share = 100 * k // todo
                if k == todo:
                    if len(new) != 1 or '100%' not in new[0]:
                        return 'at the end %r' % new
                    continue
                want = share if share > last else None
                if want is None and new or want is not None and (
                        len(new) != 1 or
                        new[0].split()[-1].strip() != '%d%%' % want):
                    return 'after %d tasks %r, expected %s%%' % (
                        k, new, want)
                last = share
        ctx.check('progress', todo, f)

    def manager(todo):
        log = []
        tm = P.TaskManager(lambda: 1, lambda f, *a: log.append(f % a), 't')
        for _ in range(todo):
            tm.submit()
        if tm.aggregate_results(lambda a, x: a + x, 0) != todo:
            return 'result'
        pcs = [int(x.split()[-1][:-1]) for x in log[1:]]
        if pcs != sorted(set(100 * k // todo for k in range(1, todo + 1))
                         - set([0])):
            return 'percentages %r' % pcs
    for todo in (1, 2, 3, 7, 99, 100, 101, 250):
        ctx.check('progress of a manager', todo, lambda: manager(todo))
