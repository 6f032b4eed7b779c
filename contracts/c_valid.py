"""valid.py: numeric and text validators, intensity measure types."""
from .base import *     # noqa
from pydv.builtins_ import fn
from pydv.regex import ch, lit

V = ['valid']
float_ok = fn('float_ok', TStr, TBool)
float_of = fn('float_of', TStr, TFP)
int_ok = fn('int_ok', TStr, TBool)
int_of = fn('int_of', TStr, TInt)
S64 = TFP.sort()


def fp(x):
    return z3.FPVal(x, S64)


def validator(E, f, text, accepted, value, t):
    """f(text) returns `value` iff `accepted`, else a ValueError"""
    try:
        r = E.call(f, [text])
    except PyExc as e:
        E.prove('a refusal is a ValueError', is_exc(E, e, 'ValueError'))
        E.prove('only texts outside the language are refused',
                z3.Not(accepted))
        reach(E, 'refused')
        return
    E.prove('only texts of the language are accepted', accepted)
    reach(E, 'accepted')
    if t is TFP:
        # identical values (signed zeros included)
        E.prove('the value is the number denoted',
                E.z(r, TFP) == value)
    elif t is TNone:
        pass
    else:
        E.prove('the value is the one denoted', E.z(r, t) == value)


def floatrange(path, lo, hi):
    def t(E):
        f = E.lookup_path(path)
        s = E.const('text', TStr)
        x = float_of(s.e)
        acc = z3.And(float_ok(s.e), z3.Not(z3.fpIsNaN(x)))
        if lo is not None:
            acc = z3.And(acc, z3.fpGEQ(x, fp(lo)))
        if hi is not None:
            acc = z3.And(acc, z3.fpLEQ(x, fp(hi)))
        return lambda: validator(E, f, s, acc, x, TFP)
    return t


def t_anyrange(E):
    """FloatRange(lo, hi) for every pair of (not nan) bounds"""
    cls = E.lookup_path('valid.FloatRange')
    s = E.const('text', TStr)
    lo, hi = E.const('lo', TFP), E.const('hi', TFP)
    x = float_of(s.e)

    def run():
        E.assume(z3.Not(z3.fpIsNaN(lo.e)))
        E.assume(z3.Not(z3.fpIsNaN(hi.e)))
        f = E.call(cls, [lo, hi])
        validator(E, f, s, z3.And(float_ok(s.e), z3.Not(z3.fpIsNaN(x)),
                                  z3.fpGEQ(x, lo.e), z3.fpLEQ(x, hi.e)),
                  x, TFP)
    return run


def t_positiveint(E):
    f = E.lookup_path('valid.positiveint')
    s = E.const('text', TStr)
    return lambda: validator(
        E, f, s, z3.And(int_ok(s.e), int_of(s.e) >= 0), int_of(s.e), TInt)


# ------------------------------------------------------------------ texts
def ident(s):
    letter = z3.Union(ch(65, 90), ch(97, 122), lit(95))
    return z3.InRe(s, z3.Concat(letter, z3.Star(z3.Union(
        letter, ch(48, 57)))))


def t_name(E):
    f = E.lookup_path('valid.name')
    s = E.const('text', TStr)
    return lambda: validator(E, f, s, ident(s.e), s.e, TStr)


def t_namelist(E):
    f = E.lookup_path('valid.namelist')
    s = E.const('text', TStr)
    TS = TSeq(TStr)
    split = z3.Function('str_split_', TStr.sort(), TS.sort())
    allid = E.add_fold(Fold('allid', TStr, TBool, T,
                            lambda a, x, p: z3.And(a, ident(x)), hom=z3.And))
    words = split(s.e)
    E.reg(TS, words)
    return lambda: validator(
        E, f, s, z3.And(words != TS.nil, allid(words)), words, TS)


def t_not_empty(E):
    f = E.lookup_path('valid.not_empty')
    s = E.const('text', TStr)
    return lambda: validator(E, f, s, s.e != z3.StringVal(''), s.e, TStr)


def lower_facts(E, s):
    """lower() leaves the constants in question unchanged"""
    low = fn('str_lower', TStr, TStr)
    for c in ('0', '1', 'true', 'false'):
        E.assume(z3.Implies(s == z3.StringVal(c), low(s) == s))


def t_boolean(E):
    f = E.lookup_path('valid.boolean')
    s = E.const('text', TStr)

    def run():
        lower_facts(E, s.e)
        one = [s.e == z3.StringVal(c) for c in ('1', 'true')]
        zero = [s.e == z3.StringVal(c) for c in ('0', 'false')]
        validator(E, f, s, z3.Or(*(one + zero)), z3.Or(*one), TBool)
    return run


def t_choice(E):
    """Choice(*choices) for any number of choices"""
    s = E.const('text', TStr)
    TS = TSeq(TStr)
    C = E.const('C', TS)
    cls = E.lookup_path('valid.Choice')
    mem = members(E, TS, s.e)

    def run():
        o = E.alloc(HInst(cls, {'choices': C}))
        validator(E, o, s, mem(C.e, s.e), s.e, TStr)
    return run


def t_choice_ctor(E):
    s = E.const('text', TStr)
    cs = [E.const('c%d' % i, TStr) for i in range(3)]
    cls = E.lookup_path('valid.Choice')

    def run():
        o = E.call(cls, cs)
        validator(E, o, s, z3.Or(*[s.e == c.e for c in cs]), s.e, TStr)
    return run


def t_category(E):
    f = E.lookup_path('valid.category')
    s = E.const('text', TStr)
    return lambda: validator(
        E, f, s, z3.Or(s.e == z3.StringVal('population'),
                       s.e == z3.StringVal('buildings')), s.e, TStr)


def t_noneor(E):
    cls = E.lookup_path('valid.NoneOr')
    s = E.const('text', TStr)
    Val = TObj('Val')
    ok = z3.Function('cast_ok', TStr.sort(), z3.BoolSort())
    val = z3.Function('cast_val', TStr.sort(), Val.sort())

    def cast(E, args, kw):
        e = E.z(args[0], TStr)
        if not E.branch(ok(e)):
            E.raise_('ValueError', 'refused')
        return Sym(Val, val(e))

    def run():
        f = E.call(cls, [UFun('cast', cast)])
        empty = s.e == z3.StringVal('')
        try:
            r = E.call(f, [s])
        except PyExc as e:
            E.prove('refused as by the wrapped validator', z3.And(
                z3.BoolVal(is_exc(E, e, 'ValueError')), z3.Not(empty),
                z3.Not(ok(s.e))))
            reach(E, 'refused')
            return
        if r is None:
            E.prove('None only for the empty text', empty)
            reach(E, 'none')
        else:
            E.prove('otherwise the value of the wrapped validator', z3.And(
                z3.Not(empty), ok(s.e), E.z(r, Val) == val(s.e)))
            reach(E, 'accepted')
    return run


# ------------------------------------------------------------------- IMTs
PLAIN = ('PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI')


def t_imt(E):
    f = E.lookup_path('valid.IMTstr')
    s = E.const('text', TStr)
    dig = z3.Plus(ch(48, 57))
    num = z3.Concat(dig, z3.Option(z3.Concat(lit(46), z3.Star(ch(48, 57)))))
    sa = z3.Concat(z3.Re('SA('), num, z3.Re(')'))
    plain = z3.Or(*[s.e == z3.StringVal(c) for c in PLAIN])
    inner = z3.SubString(s.e, 3, z3.Length(s.e) - 4)

    def run():
        # an unsigned decimal number is a text float() accepts
        E.assume(z3.Implies(z3.InRe(inner, num), float_ok(inner)))
        try:
            r = E.call(f, [s])
        except PyExc as e:
            E.prove('a refusal is a ValueError', is_exc(E, e, 'ValueError'))
            E.prove('only other texts are refused',
                    z3.And(z3.Not(plain), z3.Not(z3.InRe(s.e, sa))))
            reach(E, 'refused')
            return
        imt, per, damp = [E.getattr(r, n) for n in (
            'imt', 'saPeriod', 'saDamping')]
        if per is None:
            E.prove('a plain measure type', plain)
            E.prove('its name is the text', E.z(imt, TStr) == s.e)
            E.prove('it has no damping', damp is None)
            reach(E, 'plain')
        else:
            E.prove('spectral acceleration', z3.InRe(s.e, sa))
            E.prove('its name is SA', E.eq(imt, 'SA'))
            E.prove('the period is the number in parentheses',
                    E.z(per, TFP) == float_of(inner))
            E.prove('the damping is 5', E.eq(damp, 5.0))
            reach(E, 'SA')
        E.prove('a tuple of three fields',
                E.z(E.call(E.builtins['len'], [r]), TInt) == 3)
    return run


AR = ['accepted', 'refused']
TASKS = {
    'C07': [Task('longitude', floatrange('valid.longitude', -180., 180.), V,
                 float_mode='fp', covers=AR),
            Task('latitude', floatrange('valid.latitude', -90., 90.), V,
                 float_mode='fp', covers=AR),
            Task('probability', floatrange('valid.probability', 0., 1.), V,
                 float_mode='fp', covers=AR),
            Task('positivefloat', floatrange('valid.positivefloat', 0., None),
                 V, float_mode='fp', covers=AR),
            Task('FloatRange', t_anyrange, V, float_mode='fp', covers=AR),
            Task('positiveint', t_positiveint, V, covers=AR)],
    'C08': [Task('name', t_name, V, covers=AR),
            Task('namelist', t_namelist, V, covers=AR),
            Task('not_empty', t_not_empty, V, covers=AR),
            Task('boolean', t_boolean, V, covers=AR),
            Task('Choice', t_choice, V, covers=AR),
            Task('Choice constructor', t_choice_ctor, V, covers=AR),
            Task('category', t_category, V, covers=AR),
            Task('NoneOr', t_noneor, V,
                 covers=['accepted', 'refused', 'none'])],
    'C09': [Task('IMTstr', t_imt, V, float_mode='fp',
                 covers=['plain', 'SA', 'refused'])],
}
