import re
from run import raises
from openquake.commonlib import valid as V

INF = float('inf')


def number_texts(ctx):
    r = ctx.rng
    fixed = ['nan', 'NaN', '-nan', '+nan', 'inf', '-inf', '+inf', 'Infinity',
             '-Infinity', '', ' ', 'abc', '1.2.3', '1e400', '-1e400', '0',
             '-0', '0.0', '-0.0', '1', '1.0', '+1', ' 1 ', '1e-400',
             '-1e-320', '4.9e-324', '-4.9e-324', '0x10', '1,5', '--1', '1-',
             '1e', 'e1', '180', '180.0000001', '-180', '-180.0000001', '90',
             '90.0000001', '-90', '-90.0000001', '1.0000000000000002',
             '0.9999999999999999', '179.99999', '-179.99999', '89.999',
             '200', '-200', '100', '-100', '-1', '-1.5', '-1e-10', '1L',
             '\n1\n', '1\x00', 'True', 'None', '.5', '5.', '-.5', '1_0',
             '0.5', '-0.5', '1e2', '1e3', '-1e2', '-1e3']
    for t in fixed:
        yield t
    for _ in range(ctx.n(400, 6000)):
        x = r.choice([r.uniform(-200, 200), r.uniform(-1, 2),
                      r.gauss(0, 1e5), r.randrange(-300, 300)])
        yield r.choice(['%r', '%s', '%.3f', '%e', ' %s', '%s ', '%sx'][:6]) \
            % x
        for c in (180, -180, 90, -90, 0, 1):
            yield repr(c + r.choice([-1, 0, 1]) * 10.0 ** -r.randrange(1, 16))


def tofloat(t):
    try:
        return float(t)
    except ValueError:
        return None


def numeric(ctx, name, f, lo, hi):
    for t in number_texts(ctx):
        def ok():
            x = tofloat(t)
            if x is None or x != x or x < lo or x > hi:
                return raises(ValueError, f, t)
            got = f(t)
            if got != x or not isinstance(got, float) or \
                    repr(got) != repr(x):
                return 'got %r, expected %r' % (got, x)
        ctx.check(name, t, ok)


def C07(ctx):
    ctx.rule = ('boundary and special texts plus random ones for every '
                'numeric validator')
    numeric(ctx, 'longitude', V.longitude, -180., 180.)
    numeric(ctx, 'latitude', V.latitude, -90., 90.)
    numeric(ctx, 'probability', V.probability, 0., 1.)
    numeric(ctx, 'positivefloat', V.positivefloat, 0., INF)
    r = ctx.rng
    for lo, hi in [(0, 1), (-5, 5), (1.5, 1.5), (-180, 180), (0, INF),
                   (-INF, 0), (-INF, INF), (100, 300), (3, 2),
                   (0.1, 0.2), (-1e-10, 1e-10)]:
        numeric(ctx, 'FloatRange(%r, %r)' % (lo, hi), V.FloatRange(lo, hi),
                lo, hi)
    ints = ['0', '1', '-1', '-0', '+3', ' 4 ', '12', '-12', '1.0', '1.5', '',
            'a', 'nan', 'inf', '-inf', '1e3', '0x1', '99999999999999999999',
            '-99999999999999999999', '1L', '1 2', '\t7', '007', '--1']
    ints += [str(r.randrange(-1000, 1000)) for _ in range(ctx.n(200))]
    for t in ints:
        def ok():
            try:
                i = int(t)
            except ValueError:
                i = None
            if i is None or i < 0:
                return raises(ValueError, V.positiveint, t)
            got = V.positiveint(t)
            if got != i or not isinstance(got, (int, long)):
                return 'got %r' % (got,)
        ctx.check('positiveint', t, ok)


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


def is_ident(t):
    return bool(t) and t[0] in LETTERS and all(
        c in LETTERS + '0123456789' for c in t)


def texts(ctx):
    r = ctx.rng
    for t in ['', ' ', 'a', 'A', '_', '1', 'a1', '1a', 'a b', ' a', 'a ',
              'a\n', '\na', 'a-b', 'a.b', '__x__', 'x\n\n', 'a\x00', 'z9_',
              '\t', 'a\tb', 'a  b', 'a\nb', 'a,b', 'a 1', '1 a', 'a b-c',
              'true', 'false', '0', 'True', 'TRUE', 'False', 'tRue', ' true',
              'true ', '01', '10', '2', 'yes', 'no', 't', 'population',
              'buildings', 'Population', 'populatio', 'building',
              'populationbuildings', '\xe9', 'a\xe9', 'true\n', 'x' * 300,
              '9' * 10, 'aZ_09', '`', '[', '@', '{', 'a:', 'a/', '\x0ba']:
        yield t
    for _ in range(ctx.n(1200, 20000)):
        yield ''.join(r.choice(r.choice([
            'ab_1', 'aZz_09', 'ab ', 'a1 \n\t', 'xyz-', '01 ', 'A_b.9']))
            for _ in range(r.randrange(8)))


def C08(ctx):
    ctx.rule = 'edge and random texts for every text validator'
    opt = V.NoneOr(V.positiveint)
    optname = V.NoneOr(V.name)
    choices = [('a', 'b'), ('x',), ('a b', '', '0'), ('1', '01', 'a1')]

    def accept(f, t, want):
        got = f(t)
        if got != want or type(got) is not type(want):
            return 'got %r, expected %r' % (got, want)

    class Odd(Exception):
        pass

    def odd(t):
        raise Odd(t)
    for t in texts(ctx):
        ctx.check('identifier', t, lambda: accept(V.name, t, t)
                  if is_ident(t) else raises(ValueError, V.name, t))
        words = t.split()
        ctx.check('name list', t, lambda: accept(V.namelist, t, words)
                  if words and all(is_ident(w) for w in words)
                  else raises(ValueError, V.namelist, t))
        ctx.check('not empty', t, lambda: accept(V.not_empty, t, t)
                  if t else raises(ValueError, V.not_empty, t))
        ctx.check('boolean', t, lambda: accept(
            V.boolean, t, t in ('1', 'true'))
            if t in ('0', '1', 'true', 'false')
            else raises(ValueError, V.boolean, t))
        ctx.check('category', t, lambda: accept(V.category, t, t)
                  if t in ('population', 'buildings')
                  else raises(ValueError, V.category, t))
        for cs in choices:
            c = V.Choice(*cs)
            ctx.check('choice %r' % (cs,), t, lambda: accept(c, t, t)
                      if t in cs else raises(ValueError, c, t))

        def optional(f, g):
            if t == '':
                return accept(f, t, None)
            try:
                want = g(t)
            except ValueError:
                return raises(ValueError, f, t)
            return accept(f, t, want)
        ctx.check('optional int', t, lambda: optional(opt, V.positiveint))
        ctx.check('optional name', t, lambda: optional(optname, V.name))
        ctx.check('optional of anything', t, lambda: accept(
            V.NoneOr(odd), t, None) if t == ''
            else raises(Odd, V.NoneOr(odd), t))
        for pat in ('[ab]+1?', r'\d+'):
            pass
    for t in ['ab', 'b', 'abx', 'xab', '', 'a\n']:
        rx = V.Regex(r'(a|b)+\Z')
        ctx.check('Regex', t, lambda: accept(rx, t, t)
                  if t in ('ab', 'b') else raises(ValueError, rx, t))


def is_decimal(t):
    """an unsigned decimal number starting with a digit"""
    if not t or t[0] not in '0123456789' or t.count('.') > 1:
        return False
    return all(c in '0123456789.' for c in t)


def C09(ctx):
    ctx.rule = 'all plain types, SA with many periods, near misses'
    plain = ['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI']
    r = ctx.rng
    texts = list(plain)
    for p in plain:
        texts += [p.lower(), p + 'x', 'x' + p, p + '\n', p + ' ', ' ' + p,
                  p[:-1], p + p, p + '(1)', p + '|', p + 'SA(1)']
    texts += ['', 'SA', 'SA()', 'SA(x)', 'SA(-1)', 'SA(+1)', 'SA(1e3)',
              'SA(.5)', 'SA(1', 'SA1)', 'sa(1)', 'SA(1)x', 'SA(1)\n',
              'SA( 1)', 'SA(1 )', 'SA(1.2.3)', 'SA(1,2)', 'SA(nan)',
              'SA(inf)', 'SA(0)', 'SA(0.0)', 'SA(5.)', 'SA(00.10)',
              'SA(1)SA(2)', 'SA(0.1)PGA', 'SA[1]', 'SA\n(1)', 'SA(1\n)',
              'SA(12345678901234567890)', 'PGAPGV', 'XXX', 'AI', 'PG']
    for _ in range(ctx.n(400, 5000)):
        texts.append('SA(%s)' % r.choice(
            ['%d' % r.randrange(20), '%.2f' % r.uniform(0, 10),
             '%.6f' % r.uniform(0, 1), '%d.' % r.randrange(9)]))
        t = r.choice(texts)
        if t:
            i = r.randrange(len(t))
            texts.append(r.choice([t[:i] + t[i + 1:], t + r.choice('x1)( '),
                                   t[:i] + r.choice('ASPG1.(') + t[i:]]))
    for t in texts:
        def ok():
            if t in plain:
                got = V.IMTstr(t)
                want = (t, None, None)
            elif t[:3] == 'SA(' and t[-1:] == ')' and is_decimal(t[3:-1]):
                got = V.IMTstr(t)
                want = ('SA', float(t[3:-1]), 5.0)
            else:
                return raises(ValueError, V.IMTstr, t)
            if tuple(got) != want or (got.imt, got.saPeriod,
                                      got.saDamping) != want:
                return 'got %r, expected %r' % (got, want)
        ctx.check('IMT', t, ok)
