import math
from run import raises
from openquake.commonlib import general as G


class Item(object):
    """an item compared by identity"""
    def __init__(self, n, w, k):
        self.n, self.w, self.k = n, w, k

    def __repr__(self):
        return 'Item(%s, w=%r, k=%r)' % (self.n, self.w, self.k)


def reference(items, maxw, weight, kind):
    blocks = []
    for it in items:
        w = weight(it)
        if w == 0:
            continue
        if blocks and blocks[-1][2] == kind(it) and \
                blocks[-1][1] + w <= maxw:
            blocks[-1][0].append(it)
            blocks[-1][1] += w
        else:
            blocks.append([[it], w, kind(it)])
    return blocks


def gen_items(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30])
    kinds = r.choice([['Unspecified'], ['a'], ['a', 'b'],
                      ['Unspecified', 'a'], [None, 0, ''],
                      ['a', 'b', 'c', 'Unspecified']])
    ws = r.choice([[1], [0, 1], [0, 1, 2, 3], [0, 0, 5], [1, 2, 10],
                   [0.5, 0.25, 0], [1, 1, 0, 7, 100]])
    return [Item(i, r.choice(ws), r.choice(kinds)) for i in range(n)]


def ident_eq(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def show(blocks):
    return '%r' % [(list(b), b.weight) for b in blocks]


def splitting_cases(ctx):
    r = ctx.rng
    for trial in range(ctx.n(700, 8000)):
        if not ctx.time_left():
            break
        items = gen_items(ctx)
        maxw = r.choice([1, 2, 3, 4, 5, 7, 10, 0.5, 2.5, 1000])
        yield items, maxw


def variants(items, maxw):
    w = lambda it: it.w
    k = lambda it: it.k
    one = lambda it: 1
    unsp = lambda it: 'Unspecified'
    yield 'weight,kind', w, k, lambda: G.block_splitter(items, maxw, w, k)
    yield 'iterator', w, k, lambda: G.block_splitter(
        iter(items), maxw, weight=w, kind=k)
    yield 'weight', w, unsp, lambda: G.block_splitter(items, maxw, w)
    yield 'kind', one, k, lambda: G.block_splitter(items, maxw, kind=k)
    yield 'default', one, unsp, lambda: G.block_splitter(items, maxw)


def C01(ctx):
    ctx.rule = ('random item sequences (identity-compared), weights with '
                'zeros, several kinds, limits and hints; compared with the '
                'items of non-zero weight')
    for items, maxw in splitting_cases(ctx):
        for name, w, k, call in variants(items, maxw):
            def lossless():
                bs = list(call())
                if not all(len(list(b)) for b in bs):
                    return 'empty block: ' + show(bs)
                flat = [x for b in bs for x in b]
                exp = [x for x in items if w(x) != 0]
                if not ident_eq(flat, exp):
                    return 'got %s, expected %r' % (show(bs), exp)
            ctx.check('lossless by limit (%s)' % name,
                      (items, maxw), lossless)
        hint = ctx.rng.choice([1, 2, 3, 5, 8, 100])
        if sum(it.w for it in items) > 0:
            def by_hint():
                bs = list(G.split_in_blocks(
                    iter(items), hint, lambda i: i.w, lambda i: i.k))
                flat = [x for b in bs for x in b]
                exp = [x for x in items if x.w != 0]
                if not all(len(list(b)) for b in bs):
                    return 'empty block: ' + show(bs)
                if not ident_eq(flat, exp):
                    return 'got %s, expected %r' % (show(bs), exp)
            ctx.check('lossless by hint', (items, hint), by_hint)


def C02(ctx):
    ctx.rule = 'as C01; homogeneity, weights, limit, greediness, refusals'
    for items, maxw in splitting_cases(ctx):
        for name, w, k, call in variants(items, maxw):
            def good():
                bs = list(call())
                prev = None
                for b in bs:
                    its = list(b)
                    ks = [k(x) for x in its]
                    if any(x != ks[0] for x in ks):
                        return 'mixed kinds: ' + show(bs)
                    if b.weight != sum(w(x) for x in its):
                        return 'wrong weight: ' + show(bs)
                    if b.weight > maxw and len(its) != 1:
                        return 'over the limit: ' + show(bs)
                ref = reference(items, maxw, w, k)
                if len(ref) != len(bs) or not all(
                        ident_eq(x[0], list(b)) for x, b in zip(ref, bs)):
                    return 'a block started without need: %s, expected %r' \
                        % (show(bs), ref)
            ctx.check('blocks (%s)' % name, (items, maxw), good)
        bad = list(items)
        bad.insert(ctx.rng.randrange(len(items) + 1),
                   Item('neg', ctx.rng.choice([-1, -0.001, -100]), 'a'))
        ctx.check('negative weight', (bad, maxw), lambda: raises(
            ValueError, lambda: list(G.block_splitter(
                bad, maxw, lambda i: i.w, lambda i: i.k))))
        lim = ctx.rng.choice([0, -1, -0.5, 0.0, -100])
        ctx.check('limit not positive', (items, lim), lambda: raises(
            ValueError, lambda: list(G.block_splitter(
                items, lim, lambda i: i.w, lambda i: i.k))))


def C03(ctx):
    ctx.rule = 'random sequences and hints; balanced limit'
    r = ctx.rng
    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        items = gen_items(ctx)
        hint = r.choice([1, 2, 3, 4, 5, 6, 7, 10, 50])
        tot = sum(it.w for it in items)
        if tot > 0:
            def same():
                w, k = (lambda i: i.w), (lambda i: i.k)
                got = list(G.split_in_blocks(items, hint, w, k))
                lim = int(math.ceil(float(tot) / hint))
                exp = reference(items, lim, w, k)
                if len(got) != len(exp) or not all(
                        ident_eq(e[0], list(g)) and g.weight == e[1]
                        for e, g in zip(exp, got)):
                    return 'got %s, expected (limit %s) %r' % (
                        show(got), lim, exp)
            ctx.check('balanced limit', (items, hint), same)
        else:
            ctx.check('nothing to split: as with the limit 0',
                      (items, hint), lambda: raises(
                          ValueError, lambda: list(G.split_in_blocks(
                              items, hint, lambda i: i.w))))
        n = r.randrange(1, 60)

        def count():
            got = list(G.split_in_blocks(range(n), hint))
            if len(got) > hint:
                return '%d blocks: %s' % (len(got), show(got))
            lim = -(-n // hint)
            if [list(b) for b in got] != [
                    range(n)[i:i + lim] for i in range(0, n, lim)]:
                return 'not balanced: ' + show(got)
        ctx.check('unit weights: at most hint blocks', (n, hint), count)
        bad = r.choice([0, -1, -7])

        def refused():
            try:
                got = list(G.split_in_blocks(items, bad, lambda i: i.w))
            except Exception:
                return
            return 'accepted: ' + show(got)
        ctx.check('hint not positive', (items, bad), refused)


def C04(ctx):
    ctx.rule = 'random histories of construct/append/insert/extend/add/merge'
    r = ctx.rng
    WS = G.WeightedSequence

    def pairs(n=None):
        return [(r.randrange(5), r.choice([0, 1, 2, 0.5, 3]))
                for _ in range(r.randrange(5) if n is None else n)]

    def expect(ws, items, weight):
        if list(ws) != items or ws[:] != items or len(ws) != len(items):
            return 'items %r, expected %r' % (list(ws), items)
        if ws.weight != weight:
            return 'weight %r, expected %r' % (ws.weight, weight)
        for i, x in enumerate(items):
            if ws[i] != x:
                return 'item %d is %r, expected %r' % (i, ws[i], x)

    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        ps = pairs()
        ops = []
        for _ in range(r.randrange(6)):
            op = r.choice(['append', 'insert', 'extend', 'iadd'])
            if op == 'insert':
                ops.append((op, r.randrange(-7, 8), pairs(1)[0]))
            elif op == 'append':
                ops.append((op, None, pairs(1)[0]))
            else:
                ops.append((op, None, pairs()))

        def build(ps=ps, ops=ops):
            ws = WS(r.choice([list, tuple, iter])(ps)) if ps else WS()
            items = [p[0] for p in ps]
            weight = sum(p[1] for p in ps)
            for op, i, p in ops:
                if op == 'append':
                    ws.append(p)
                    items.append(p[0])
                    weight += p[1]
                elif op == 'insert':
                    ws.insert(i, p)
                    items.insert(i, p[0])
                    weight += p[1]
                elif op == 'extend':
                    ws.extend(iter(p))
                    items.extend(x[0] for x in p)
                    weight += sum(x[1] for x in p)
                else:
                    old = ws
                    ws += p
                    if ws is not old:
                        raise AssertionError('+= made a new object')
                    items.extend(x[0] for x in p)
                    weight += sum(x[1] for x in p)
            return ws, items, weight

        def history():
            ws, items, weight = build()
            return expect(ws, items, weight)
        ctx.check('history', (ps, ops), history)
        qs = pairs()

        def add():
            a, ia, wa = build()
            b = WS(qs)
            ib, wb = [q[0] for q in qs], sum(q[1] for q in qs)
            c = a + b
            if c is a or c is b:
                return 'the sum is an operand'
            bad = expect(c, ia + ib, wa + wb)
            if bad:
                return 'sum: ' + bad
            c.append((99, 5))
            d = a + a
            bad = expect(d, ia + ia, wa + wa)
            if bad:
                return 'sum with itself: ' + bad
            return expect(a, ia, wa) or expect(b, ib, wb)
        ctx.check('add', (ps, ops, qs), add)
        many = [pairs() for _ in range(r.randrange(5))]

        def merge():
            wss = [WS(p) for p in many]
            c = WS.merge(wss)
            bad = expect(c, [x for p in many for x, _ in p],
                         sum(w for p in many for _, w in p))
            if bad:
                return 'merge: ' + bad
            c.append((7, 7))
            for ws, p in zip(wss, many):
                bad = expect(ws, [x for x, _ in p], sum(w for _, w in p))
                if bad:
                    return 'operand changed: ' + bad
        ctx.check('merge', many, merge)
        us = r.choice([qs, ps, ps[:-1], ps + qs, [(x, 1) for x, _ in ps],
                       pairs(len(ps))])

        def order():
            a, b = WS(ps), WS(us)
            if (a < b) != (a.weight < b.weight):
                return '< is not by weight'
            if (a.weight != b.weight and
                    sorted([a, b])[0].weight > sorted([a, b])[1].weight):
                return 'not sorted by weight'
            same = [x for x, _ in ps] == [x for x, _ in us]
            if (a == b) != same:
                return '== gives %r' % (a == b)
            if (a != b) != (not same):
                return '!= gives %r' % (a != b)
        ctx.check('order and equality', (ps, us), order)


def C05(ctx):
    ctx.rule = 'random sequences over small alphabets, several types'
    r = ctx.rng
    for trial in range(ctx.n(4000, 40000)):
        if not ctx.time_left():
            break
        alpha = r.choice([range(5), 'abcdef', [(1, 2), (1,), ()],
                          [None, 0, False, 1, ''], range(100),
                          ['a', u'a', 'b', 1.0, 1]])
        keys = [r.choice(alpha) for _ in range(r.choice([0, 1, 2, 5, 20]))]
        exp = []
        for k in keys:
            if k not in exp:
                exp.append(k)

        def same():
            got = list(G.distinct(r.choice([list, tuple, iter])(keys)))
            if got != exp or map(type, got) != map(type, exp):
                return 'got %r, expected %r' % (got, exp)
        ctx.check('distinct', keys, same)


# ------------------------------------------------------------------ deep_eq
class A(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'A(%r)' % self.__dict__


class B(A):
    def __repr__(self):
        return 'B(%r)' % self.__dict__


class S(object):
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __repr__(self):
        return 'S(%r, %r)' % (self.x, self.y)


class S2(object):
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __repr__(self):
        return 'S2(%r, %r)' % (self.x, self.y)


NUM = (int, long, float, complex)


def tree(r, depth):
    k = r.choice(['n', 's', 'none', 'l', 't', 'd', 'o', 'S', 'l', 'd', 'o'])
    if depth == 0 or k in ('n', 's', 'none'):
        return r.choice([0, 1, 2, 3.5, -1.25, 7L, 'a', '', 'bc', None, True,
                         u'u', 'abc', 2 + 1j, 100.0, 1])
    n = r.randrange(4)
    if k == 'l':
        return [tree(r, depth - 1) for _ in range(n)]
    if k == 't':
        return tuple(tree(r, depth - 1) for _ in range(n))
    names = r.sample(['x', 'y', 'z', 'id'], n)
    if k == 'd':
        return dict((m, tree(r, depth - 1)) for m in names)
    if k == 'S':
        return r.choice([S, S2])(tree(r, depth - 1), tree(r, depth - 1))
    return r.choice([A, B])(**dict((m, tree(r, depth - 1)) for m in names))


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, tuple):
        return tuple(copy(x) for x in v)
    if isinstance(v, dict):
        return dict((k, copy(x)) for k, x in v.items())
    if isinstance(v, A):
        return v.__class__(**copy(v.__dict__))
    if isinstance(v, (S, S2)):
        return v.__class__(copy(v.x), copy(v.y))
    return v


def mutate(r, v, decimal):
    """change something at a random depth"""
    if isinstance(v, (list, tuple)) and v and r.random() < .8:
        l = list(v)
        i = r.randrange(len(l))
        c = r.random()
        if c < .7:
            l[i] = mutate(r, l[i], decimal)
        elif c < .85:
            del l[i]
        else:
            l.append(r.choice([0, 'a', None]))
        return type(v)(l)
    if isinstance(v, dict) and v and r.random() < .8:
        d = dict(v)
        k = r.choice(sorted(d))
        c = r.random()
        if c < .6:
            d[k] = mutate(r, d[k], decimal)
        elif c < .8:
            del d[k]
        elif c < .9:
            d['new'] = d.pop(k)
        else:
            d['extra'] = 1
        return d
    if isinstance(v, A) and r.random() < .8:
        c = r.random()
        if c < .2:
            return (B if v.__class__ is A else A)(**v.__dict__)
        d = mutate(r, dict(v.__dict__), decimal)
        return v.__class__(**d) if isinstance(d, dict) else d
    if isinstance(v, (S, S2)) and r.random() < .8:
        c = r.random()
        if c < .2:
            return (S2 if v.__class__ is S else S)(v.x, v.y)
        if c < .6:
            return v.__class__(mutate(r, v.x, decimal), v.y)
        return v.__class__(v.x, mutate(r, v.y, decimal))
    if isinstance(v, NUM) and r.random() < .7:
        eps = 10.0 ** -decimal
        return r.choice([v + eps * .1, v - eps * .1, v + eps * 20,
                         v - eps * 20, v + 50, str(v), None])
    return r.choice([0, 'a', None, [], [v], {}, {'x': 1}, (v,), A(), 1.5,
                     S(1, 2), 'abc', ['a', 'b', 'c'], v])


class Borderline(Exception):
    pass


def oracle(a, b, dec, exc):
    isseq = lambda x: isinstance(x, (list, tuple))
    if isseq(a) or isseq(b):
        return isseq(a) and isseq(b) and len(a) == len(b) and all(
            oracle(x, y, dec, exc) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        ka = set(k for k in a if k not in exc)
        kb = set(k for k in b if k not in exc)
        return ka == kb and all(oracle(a[k], b[k], dec, exc) for k in ka)
    if isinstance(a, A) or isinstance(b, A):
        return a.__class__ is b.__class__ and oracle(
            a.__dict__, b.__dict__, dec, exc)
    if isinstance(a, (S, S2)) or isinstance(b, (S, S2)):
        return a.__class__ is b.__class__ and all(
            oracle(getattr(a, n), getattr(b, n), dec, exc)
            for n in ('x', 'y') if n not in exc)
    if isinstance(a, NUM) or isinstance(b, NUM):
        if not (isinstance(a, NUM) and isinstance(b, NUM)):
            return False
        if .4 < abs(a - b) * 10.0 ** dec < 3:
            raise Borderline    # depends on the rounding of numpy
        return abs(a - b) * 10.0 ** dec < 1
    return a == b


def C06(ctx):
    ctx.rule = ('random nested values and mutants of them at random depth; '
                'numbers differ by far less or far more than the precision')
    r = ctx.rng

    def pair(a, b, dec, exc, style):
        def f():
            if style == 0 and dec == 7 and not exc:
                got = G.deep_eq(a, b)
            elif style == 1:
                got = G.deep_eq(a, b, decimal=dec, exclude=exc)
            else:
                got = G.deep_eq(a, b, dec, exc)
            eq, msg = got
            try:
                want = oracle(a, b, dec, exc or [])
            except Borderline:
                want = eq
            if eq is not want:
                return 'answers %r, expected %r' % (got, want)
            if (msg == '') != want or not isinstance(msg, basestring):
                return 'message %r for equality %r' % (msg, want)
        ctx.check('deep_eq', (a, b, dec, exc), f)

    for trial in range(ctx.n(6000, 60000)):
        if not ctx.time_left():
            break
        dec = r.choice([7, 7, 3, 0, 2, 5])
        exc = r.choice([None, [], ['x'], ['id'], ['x', 'y'], ['zz']])
        a = tree(r, r.randrange(5))
        b = copy(a)
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            b = mutate(r, b, dec)
        pair(a, b, dec, exc, r.randrange(3))
        pair(b, a, dec, exc, r.randrange(3))
    # iterators are compared as lists
    for a, b, want in [([1, 2], [1, 2], True), ([1, 2], [1, 3], False),
                       ([1], [1, 2], False), ([], [], True)]:
        def gens(a=a, b=b, want=want):
            eq, msg = G.deep_eq(iter(a), iter(b))
            if eq is not want or (msg == '') != want:
                return 'answers %r' % ((eq, msg),)
        ctx.check('iterators', (a, b), gens)
