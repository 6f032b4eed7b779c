"""Built-in functions and types, the trusted summaries of the standard
library, and the interpreted prelude."""
import ast as pyast
import os.path
import re
from fractions import Fraction

import z3

from .types import (T, TInt, TReal, TBool, TStr, TFP, TNone, TBot, TObj,
                    TSeq, TTup, TStruct, TOpt, TMap, TSet, join, JoinError)
from .engine import (Unsupported, PathEnd, PyExc, Sym, Ref, HList, HDict,
                     HSet, HInst, HGen, HZip, FuncV, BoundV, Builtin, Descr,
                     ClassV, ModuleV, ExtV, TermV, UFun, Frame, OBJECT,
                     TYPES, EXC, seq_parts)
from .regex import regex_match

PRELUDE = '''
def sum(it, start=0):
    for x in it:
        start = start + x
    return start

def all(it):
    for x in it:
        if not x:
            return False
    return True

def any(it):
    for x in it:
        if x:
            return True
    return False

def reduce1(f, it):
    acc = None
    first = True
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    if first:
        raise TypeError('reduce() of empty sequence')
    return acc

def reduce3(f, it, acc):
    for x in it:
        acc = f(acc, x)
    return acc

def map1(f, it):
    return [f(x) for x in it]

def filter1(f, it):
    return [x for x in it if f(x)]

def filter0(it):
    return [x for x in it if x]

def min1(it):
    best = None
    first = True
    for x in it:
        if first or x < best:
            best = x
            first = False
    if first:
        raise ValueError('min() arg is an empty sequence')
    return best

def max1(it):
    best = None
    first = True
    for x in it:
        if first or x > best:
            best = x
            first = False
    if first:
        raise ValueError('max() arg is an empty sequence')
    return best

def with_value(keys, value):
    for k in keys:
        yield k, value

def starmap(f, it):
    for x in it:
        yield f(*x)

def join(sep, it):
    acc = ''
    first = True
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = acc + sep + x
    return acc

def groupby(it, key):
    res = []
    first = True
    for x in it:
        k = key(x)
        if first or not (k == prev):
            grp = [x]
            res.append((k, grp))
            prev = k
            first = False
        else:
            grp.append(x)
    return res

def chain(its):
    for it in its:
        for x in it:
            yield x

def takewhile(pred, it):
    for x in it:
        if pred(x):
            yield x
        else:
            break
'''


def dummy_frame(E):
    m = ModuleV('dummy')
    return Frame(0, None, m, None, None)


def prelude(E, name):
    if not hasattr(E, '_prelude'):
        from .interp import py3json
        tree = py3json(pyast.parse(PRELUDE))
        m = ModuleV('prelude')
        fr = Frame(E.fresh_id(), None, m, None, None)
        for s in tree['body']:
            E.exec_stmt(s, fr)
        E._prelude = m
    return E._prelude.env[name]


def call_prelude(E, name, *args):
    return E.call(prelude(E, name), list(args), {})


# ---------------------------------------------------------------- strings
def fn(name, *ts):
    return z3.Function(name, *[t.sort() for t in ts])


def to_str(E, v, how='s'):
    """str(v) / repr(v) as an engine string value"""
    if isinstance(v, str):
        return v if how == 's' else repr(v)
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction) and v.denominator == 1 and how in 'sr':
        return str(float(v))
    if isinstance(v, (float, Fraction)):
        return str(float(v))
    if isinstance(v, Sym):
        if v.t is TStr and how == 's':
            return v
        if v.t is TInt:
            return Sym(TStr, z3.If(v.e >= 0, z3.IntToStr(v.e), z3.Concat(
                z3.StringVal('-'), z3.IntToStr(-v.e))))
        if v.t is TBool:
            return Sym(TStr, z3.If(v.e, z3.StringVal('True'),
                                   z3.StringVal('False')))
        if isinstance(v.t, TOpt):
            return to_str(E, E.unopt(v), how)
        f = fn('%s_%s' % ({'s': 'str', 'r': 'repr'}.get(how, 'fmt_' + how),
                          v.t.name), v.t, TStr)
        return Sym(TStr, f(v.e))
    if isinstance(v, Ref) and isinstance(E.h(v), HInst):
        cls = E.h(v).cls
        if cls.issub(EXC['BaseException']) and how == 's':
            a = E.excargs(E.h(v)) if cls.lookup('__str__')[0] is None \
                else ()
            if isinstance(a, tuple) and len(a) == 1 and \
                    cls.lookup('__str__')[0] is None:
                return to_str(E, a[0], 's')
        m = '__str__' if how == 's' else '__repr__'
        if how == 's' and cls.lookup('__str__')[0] is None:
            m = '__repr__'
        if cls.lookup(m)[0] is not None:
            try:
                return E.call(E.getattr(v, m), [], {})
            except (Unsupported, JoinError):
                pass
    if isinstance(v, ClassV):
        return "<class '%s'>" % v.name
    return E.fresh('text', TStr)


def concat(E, parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '' or isinstance(p, Sym):
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return Sym(TStr, z3.Concat(*[E.z(p, TStr) for p in out]))


def str_format(E, f, a):
    if not isinstance(f, str):
        if isinstance(f, Sym) and f.t is TStr:
            return E.fresh('text', TStr)
        raise Unsupported('%% of %r' % (f,))
    parts = re.split(r'(%(?:\(\w+\))?[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', f)
    named = any(re.match(r'%\(', p) for p in parts)
    if named:
        h = E.h(a) if isinstance(a, Ref) else None
        if not isinstance(h, HDict) or h.d is None:
            for p in parts:
                m = re.match(r'%\((\w+)\)', p)
                if m and isinstance(a, Ref) and isinstance(h, HInst):
                    E.getitem(a, m.group(1))
            return E.fresh('text', TStr)
        args = None
    else:
        if isinstance(a, tuple):
            args = list(a)
        elif isinstance(a, Sym) and isinstance(a.t, TTup):
            args = E.content(a)
        else:
            args = [a]
    out = []
    used = 0
    for i, p in enumerate(parts):
        if i % 2 == 0:
            out.append(p)
            continue
        if p == '%%':
            out.append('%')
            continue
        m = re.match(r'%\((\w+)\)', p)
        if m:
            if m.group(1) not in h.d:
                E.raise_('KeyError', m.group(1))
            v = h.d[m.group(1)]
        else:
            if used >= len(args):
                E.raise_('TypeError', 'not enough arguments for format')
            v = args[used]
            used += 1
        conv = p[-1]
        if isinstance(v, Sym) and isinstance(v.t, TOpt):
            v = E.unopt(v)
        if conv in 'dif':
            if isinstance(v, Sym) and v.t is TFP and conv in 'di':
                if E.branch(z3.fpIsInf(v.e)):
                    E.raise_('OverflowError', 'cannot convert infinity')
                if E.branch(z3.fpIsNaN(v.e)):
                    E.raise_('ValueError', 'cannot convert nan')
            if E.kind(v) in ('str', 'tup', 'seq', 'map', 'inst') or \
                    v is None:
                E.raise_('TypeError', '%d format: a number is required')
        simple = p in ('%s', '%r', '%d', '%i') or m and \
            p[m.end():] in ('s', 'r', 'd', 'i')
        if simple and conv in 'sr':
            out.append(to_str(E, v, conv))
        elif simple and E.kind(v) == 'num' and E.typ(v) is TInt:
            out.append(to_str(E, v))
        elif isinstance(v, (int, float, str)):
            out.append(('%' + p[m.end():] if m else p) % v)
        elif isinstance(v, Fraction):
            out.append(('%' + p[m.end():] if m else p) % float(v))
        elif isinstance(v, Sym):
            out.append(to_str(E, v, p if not m else p[m.end():]))
        else:
            out.append(E.fresh('text', TStr))
    if args is not None and used < len(args) and not isinstance(a, (Ref,)):
        E.raise_('TypeError', 'not all arguments converted')
    return concat(E, out)


def to_float(E, v):
    if isinstance(v, Sym) and isinstance(v.t, TOpt):
        v = E.unopt(v)
    if isinstance(v, str):
        if E.float_mode == 'fp' or True:
            try:
                x = float(v)
            except ValueError:
                E.raise_('ValueError', 'invalid float')
            if E.float_mode == 'real':
                if x != x or x in (float('inf'), float('-inf')):
                    raise Unsupported('non-finite float')
                return Fraction(v.strip()) if re.match(
                    r'^\s*[-+]?[\d.]+(e[-+]?\d+)?\s*$', v) else Fraction(x)
            return x
    if isinstance(v, (bool, int, float)):
        return float(v) if E.float_mode == 'fp' else Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, Sym):
        ft = TFP if E.float_mode == 'fp' else TReal
        if v.t in (TReal, TFP):
            return v
        if v.t is TInt and ft is TReal:
            return E.val(TReal, z3.simplify(z3.ToReal(v.e)))
        if v.t is TStr:
            ok = fn('float_ok', TStr, TBool)
            if not E.branch(ok(v.e)):
                E.raise_('ValueError', 'could not convert string to float')
            return Sym(ft, fn('float_of', TStr, ft)(v.e))
        if isinstance(v.t, TObj):
            if 'float' in v.t.hooks:
                return v.t.hooks['float'](E, v)
            ok = fn('float_ok_' + v.t.name, v.t, TBool)
            if not E.branch(ok(v.e)):
                E.raise_('ValueError', 'could not convert to float')
            return Sym(ft, fn('float_of_' + v.t.name, v.t, ft)(v.e))
    if v is None or E.kind(v) in ('tup', 'seq', 'map', 'set'):
        E.raise_('TypeError', 'float() argument')
    if isinstance(v, (TermV, ExtV)):
        return TermV('float', (v,), {})
    raise Unsupported('float(%r)' % (v,))


def to_int(E, v):
    if isinstance(v, Sym) and isinstance(v.t, TOpt):
        v = E.unopt(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            E.raise_('ValueError', 'invalid int')
    if isinstance(v, (bool, int, float, Fraction)):
        return int(v)
    if isinstance(v, Sym):
        if v.t is TInt:
            return v
        if v.t is TBool:
            return Sym(TInt, E.z(v, TInt))
        if v.t is TReal:
            return E.val(TInt, z3.simplify(z3.If(
                v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e))))
        if v.t is TFP:
            if E.branch(z3.fpIsInf(v.e)):
                E.raise_('OverflowError', 'cannot convert infinity')
            if E.branch(z3.fpIsNaN(v.e)):
                E.raise_('ValueError', 'cannot convert nan')
            r = z3.fpToReal(v.e)
            return Sym(TInt, z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
        if v.t is TStr:
            ok = fn('int_ok', TStr, TBool)
            if not E.branch(ok(v.e)):
                E.raise_('ValueError', 'invalid literal for int')
            return Sym(TInt, fn('int_of', TStr, TInt)(v.e))
        if isinstance(v.t, TObj):
            ok = fn('int_ok_' + v.t.name, v.t, TBool)
            if not E.branch(ok(v.e)):
                E.raise_('ValueError', 'invalid literal for int')
            return Sym(TInt, fn('int_of_' + v.t.name, v.t, TInt)(v.e))
    if v is None or E.kind(v) in ('tup', 'seq', 'map', 'set'):
        E.raise_('TypeError', 'int() argument')
    raise Unsupported('int(%r)' % (v,))


STR_METHODS = ('split', 'lower', 'upper', 'strip', 'rstrip', 'lstrip',
               'startswith', 'endswith', 'join', 'replace', 'format',
               'encode', 'decode', 'splitlines', 'rsplit', 'isdigit',
               'find', 'title', 'count', 'index', 'capitalize', 'isalnum',
               'isalpha', 'isspace', 'partition', 'rpartition', 'rfind',
               'ljust', 'rjust', 'center', 'zfill', 'isupper', 'islower')


def sym_method(E, o, a):
    """methods of strings"""
    if isinstance(o, Sym) and o.t in (TInt, TReal, TFP, TBool):
        E.raise_('AttributeError', a)
    if isinstance(o, Sym) and isinstance(o.t, TSeq):
        if a in ('index', 'count'):
            r = E.new_list(o)
            return method(E, r, E.h(r), a)
        E.raise_('AttributeError', a)
    if isinstance(o, Sym) and isinstance(o.t, TMap):
        return map_method(E, o, a)
    if isinstance(o, Sym) and o.t is not TStr:
        return None
    if a not in STR_METHODS:
        if a == '__class__':
            return TYPES['str']
        E.raise_('AttributeError', a)
    if a == 'format' and isinstance(o, str):
        return Builtin('str.format', lambda E, args, kw: dot_format(
            E, o, args, kw))
    return Builtin('str.' + a, lambda E, args, kw: str_call(E, o, a, args))


def dot_format(E, f, args, kw):
    """str.format with plain fields: {}, {0}, {name}, !s and !r"""
    import string
    try:
        fields = list(string.Formatter().parse(f))
    except ValueError as e:
        E.raise_('ValueError', str(e))
    if args and type(args[-1]).__name__ == 'StarSym':
        return E.fresh('text', TStr)
    out, auto = [], 0
    for lit, name, spec, conv in fields:
        out.append(lit)
        if name is None:
            continue
        if spec or conv not in (None, 's', 'r') or not re.match(
                r'\w*$', name):
            return E.fresh('text', TStr)
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit():
            if int(name) >= len(args):
                E.raise_('IndexError', 'tuple index out of range')
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            E.raise_('KeyError', name)
        out.append(to_str(E, v, conv or 's'))
    return concat(E, out)


def str_call(E, o, a, args):
    if a == 'join':
        c = args[0]
        if isinstance(c, Ref) and isinstance(E.h(c), HList) and isinstance(
                E.content(c), list):
            items = E.content(c)
            if not items:
                return ''
            out = []
            for i, x in enumerate(items):
                if E.kind(x) != 'str':
                    if isinstance(x, Sym) and isinstance(x.t, TObj):
                        return E.fresh('text', TStr)
                    E.raise_('TypeError', 'join: a string is required')
                if i:
                    out.append(o)
                out.append(x)
            return concat(E, out)
        if not isinstance(o, str):
            raise Unsupported('join with a symbolic separator')
        c2 = E.content(c)
        if isinstance(c2, list):
            return str_call(E, o, a, [E.new_list(c2)])
        if c2.t.el is TStr:
            f = z3.Function('join_' + o, c2.t.sort(), TStr.sort())
            hook = E.externals.get('str.join')
            if hook:
                return hook(E, o, c2)
            return Sym(TStr, f(c2.e))
        return E.fresh('text', TStr)
    if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) and (
            not isinstance(x, tuple) or all(isinstance(y, str) for y in x))
            for x in args):
        if a in ('encode', 'decode'):
            return o
        try:
            r = getattr(o, a)(*args)
        except ValueError as e:
            E.raise_('ValueError', str(e))
        return E.new_list(r) if isinstance(r, list) else r
    hook = E.externals.get('str.' + a)
    if hook is not None:
        r = hook(E, o, args)
        if r is not None:
            return r
    e = E.z(o, TStr)
    if a in ('startswith', 'endswith'):
        mk = z3.PrefixOf if a == 'startswith' else z3.SuffixOf
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        return E.boolv(E.or_([mk(E.z(x, TStr), e) for x in opts]))
    if a in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'title',
             'capitalize'):
        nm = 'str_' + a
        if args:
            if not all(isinstance(x, str) for x in args):
                raise Unsupported('str.%s' % a)
            nm += '_' + args[0]
        f = fn(nm, TStr, TStr)
        if nm in ('str_lower', 'str_upper', 'str_strip'):
            E.assume(f(f(e)) == f(e))
        return Sym(TStr, f(e))
    if a in ('encode', 'decode'):
        return o
    if a in ('split', 'splitlines', 'rsplit'):
        nm = 'str_%s_%s' % (a, '_'.join(str(x) for x in args))
        t = TSeq(TStr)
        r = z3.Function(nm, TStr.sort(), t.sort())(e)
        E.reg(t, r)
        return E.new_list(Sym(t, r))
    if a == 'replace' and len(args) == 2:
        f = fn('str_replace', TStr, TStr, TStr, TStr)
        return Sym(TStr, f(e, E.z(args[0], TStr), E.z(args[1], TStr)))
    if a in ('isdigit', 'isalnum', 'isalpha', 'isspace', 'isupper',
             'islower'):
        return Sym(TBool, fn('str_' + a, TStr, TBool)(e))
    if a in ('find', 'rfind', 'count'):
        if a == 'find' and len(args) == 1:
            return Sym(TInt, z3.IndexOf(e, E.z(args[0], TStr), 0))
        return Sym(TInt, fn('str_' + a, TStr, TStr, TInt)(
            e, E.z(args[0], TStr)))
    if a == 'format':
        return E.fresh('text', TStr)
    raise Unsupported('str.%s' % a)


def tuple_method(E, o, a):
    if a in ('index', 'count'):
        r = E.new_list(list(o))
        return method(E, r, E.h(r), a)
    if a == '__class__':
        return TYPES['tuple']
    return None


# ------------------------------------------------------ list/dict/set/gen
def method(E, o, h, a):
    def b(f):
        return Builtin(a, lambda E, args, kw: f(*args, **kw))
    if isinstance(h, HList):
        def insert(i, x):
            h = E.hmut(o)
            if isinstance(h.content, list) and isinstance(i, int):
                h.content.insert(i, x)
                return
            if isinstance(h.content, list):
                if not h.content:
                    h.content.append(x)
                    return
                t = E.typ(o)
                h.content = Sym(t, E.z(o, t))
            t = h.content.t
            n = E.len(t, h.content.e)
            if isinstance(i, int) and i == 0:
                h.content = Sym(t, E.cat(t, t.rawsnoc(t.nil, E.z(x, t.el)),
                                         h.content.e))
                return
            ie = E.z(i, TInt)
            if E.valid(ie >= n)[0] == 'proved':
                E.list_append(o, x)
                return
            # clamp like Python
            ie = z3.If(ie < 0, z3.If(ie + n < 0, 0, ie + n),
                       z3.If(ie > n, n, ie))
            r = E.inserted(t, h.content.e, ie, E.z(x, t.el))
            E.hmut(o).content = Sym(t, r)

        def pop(i=-1):
            h = E.hmut(o)
            if isinstance(h.content, list):
                if not isinstance(i, int):
                    raise Unsupported('pop at a symbolic index')
                try:
                    return h.content.pop(i)
                except IndexError:
                    E.raise_('IndexError', 'pop')
            c = h.content
            t = c.t
            if i == -1 and not isinstance(i, Sym):
                if E.branch(c.e == t.nil):
                    E.raise_('IndexError', 'pop from empty list')
                E.hmut(o).content = Sym(t, z3.simplify(t.init(c.e)))
                E.reg(t, z3.simplify(t.init(c.e)))
                return E.val(t.el, z3.simplify(t.last(c.e)))
            if i == 0 and not isinstance(i, Sym):
                if E.branch(c.e == t.nil):
                    E.raise_('IndexError', 'pop from empty list')
                hd, tl = E.uncons(c)
                E.hmut(o).content = tl
                return hd
            v = E.getitem(o, i)
            E.delitem(o, i)
            return v

        def index(x):
            c = h.content
            if isinstance(c, list):
                for i, y in enumerate(c):
                    if E.branch(E.eq(x, y)):
                        return i
                E.raise_('ValueError', 'not in list')
            if not E.branch(E.member(c, x)):
                E.raise_('ValueError', 'not in list')
            f = z3.Function('index_' + c.t.el.name, c.t.sort(),
                            c.t.el.sort(), z3.IntSort())
            k = f(c.e, E.z(x, c.t.el))
            E.assume(z3.And(k >= 0, k < E.len(c.t, c.e)))
            E.assume(E.nthfold(c.t)(c.e, k) == E.z(x, c.t.el))
            return Sym(TInt, k)

        def remove(x):
            h = E.hmut(o)
            if isinstance(h.content, list):
                for i, y in enumerate(h.content):
                    if E.branch(E.eq(x, y)):
                        del E.hmut(o).content[i]
                        return
                E.raise_('ValueError', 'not in list')
            raise Unsupported('list.remove')

        def reverse():
            h = E.hmut(o)
            if isinstance(h.content, list):
                h.content.reverse()
                return
            h.content = reversed_seq(E, h.content)

        def sort(key=None, reverse=False, cmp=None):
            h = E.hmut(o)
            h.content = E.content(sorted_(E, o, key, reverse))
        fs = {'append': lambda x: E.list_append(o, x),
              'extend': lambda x: E.list_extend(o, x),
              'insert': insert, 'pop': pop, 'index': index,
              'remove': remove, 'reverse': reverse, 'sort': sort,
              '__len__': lambda: length(E, o),
              '__getitem__': lambda i: E.getitem(o, i),
              'count': lambda x: count(E, o, x)}
        if h.cls is not None and h.cls.lookup(a)[0] is not None:
            return None
        if a in fs:
            return b(fs[a])
        if a == '__class__' and h.cls is None:
            return TYPES['list']
        return None
    if isinstance(h, HDict):
        return dict_method(E, o, h, a, b)
    if isinstance(h, HSet):
        def update(*its):
            for it in its:
                if isinstance(it, Ref) and isinstance(E.h(it), HSet) and \
                        isinstance(E.h(it).items, Sym):
                    mine = E.h(o).items
                    E.hmut(o).items = E.h(it).items if mine == [] else \
                        E.h(set_op(E, 'BitOr', o, it)).items
                    continue
                E.loop_over({'_': 'For', 'lineno': E.line[1]},
                            E.cur_frame(), it,
                            lambda x: E.set_add(o, x), lambda: None)

        def discard(x):
            h = E.hmut(o)
            if isinstance(h.items, list):
                for i, y in enumerate(h.items):
                    if E.branch(E.eq(x, y)):
                        del E.hmut(o).items[i]
                        return
                return
            t = h.items.t
            h.items = Sym(t, z3.Store(h.items.e, E.z(x, t.k),
                                      z3.BoolVal(False)))

        def remove(x):
            if not E.branch(E.contains(x, o)):
                E.raise_('KeyError', x)
            discard(x)

        def setop(op):
            def f(other):
                other = as_set(E, other)
                return set_op(E, op, o, other)
            return f

        def issubset(other):
            other = as_set(E, other)
            return set_le(E, o, other)
        def clear():
            E.hmut(o).items = []
        fs = {'add': lambda x: E.set_add(o, x), 'update': update,
              'clear': clear,
              'discard': discard, 'remove': remove,
              'difference': setop('Sub'), 'union': setop('BitOr'),
              'intersection': setop('BitAnd'), 'issubset': issubset,
              'copy': lambda: as_set(E, o, True)}
        if a in fs:
            return b(fs[a])
        return None
    if isinstance(h, (HGen, HZip)):
        def nxt():
            h = E.hmut(o)
            if isinstance(h, HZip):
                raise Unsupported('next() of %s' % h)
            if h.content is None:
                h.content = []
                c = h.thunk(None)
                E.h(o).content = c
            c = E.h(o).content
            if isinstance(c, list):
                if not c:
                    E.raise_('StopIteration')
                E.h(o).content = c[1:]
                return c[0]
            if E.branch(c.e == c.t.nil):
                E.raise_('StopIteration')
            hd, tl = E.uncons(c)
            E.h(o).content = tl
            return hd
        if a == 'next':
            return b(nxt)
        if a == '__iter__':
            return b(lambda: o)
        if a == 'close':
            return b(lambda: None)
    return None


def count(E, o, x):
    c = E.content(o)
    if isinstance(c, list):
        n = 0
        for y in c:
            if E.branch(E.eq(x, y)):
                n += 1
        return n
    f = z3.Function('count_' + c.t.el.name, c.t.sort(), c.t.el.sort(),
                    z3.IntSort())
    return Sym(TInt, f(c.e, E.z(x, c.t.el)))


def reversed_seq(E, c):
    return Sym(c.t, E.revfold(c.t)(c.e))


def dict_method(E, o, h, a, b):
    def get(k, d=None):
        h = E.h(o)
        if h.d is not None:
            if E.hashable(k) and k in h.d:
                return h.d[k]
            for kk in list(h.d):
                e = E.eq(k, kk)
                if e is False:
                    continue
                if E.branch(e):
                    return h.d[kk]
            return d
        f = E.fixed_key(h, k)
        if f is not None:
            return h.fixed[f]
        t = h.m.t
        ke = E.z(k, t.k)
        if E.branch(z3.Select(t.has(h.m.e), ke)):
            return E.map_value(o, ke)
        return d

    def items():
        h = E.h(o)
        if h.d is not None:
            return E.new_list([(k, v) for k, v in h.d.items()])
        E.unmixed(h)
        hook = E.externals.get('dict.items')
        if hook:
            return hook(E, o, h)
        h.leaked = True
        t, m = h.m.t, h.m.e

        def item(xs):
            return xs[0], E.val(t.v, z3.Select(t.val(m), E.z(xs[0], t.k)))
        return E.alloc(HZip([E.dict_keys(o)], item))

    def values():
        h = E.h(o)
        if h.d is not None:
            return E.new_list(list(h.d.values()))
        E.unmixed(h)
        hook = E.externals.get('dict.values')
        if hook:
            return hook(E, o, h)
        h.leaked = True
        t, m = h.m.t, h.m.e
        return E.alloc(HZip([E.dict_keys(o)], lambda xs: E.val(
            t.v, z3.Select(t.val(m), E.z(xs[0], t.k)))))

    def keys():
        k = E.dict_keys(o)
        return E.new_list(k if isinstance(k, Sym) else list(k))

    def update(other=None, **kw):
        if other is not None:
            if isinstance(other, Ref) and isinstance(E.h(other), HDict):
                if E.h(other).d is None:
                    mine = E.h(o)
                    if mine.d == {} and mine.onupdate is None and \
                            not mine.ordered:
                        h2 = E.h(other).copy()
                        mine.d, mine.m, mine.keys = None, h2.m, h2.keys
                        mine.fixed, mine.leaked = h2.fixed, True
                        mine.ver = E.fresh_id()
                        for k, v in kw.items():
                            E.setitem(o, k, v)
                        return
                    raise Unsupported('update from a symbolic dictionary')
                for k, v in list(E.h(other).d.items()):
                    E.setitem(o, k, v)
            else:
                E.loop_over(
                    {'_': 'For', 'lineno': E.line[1]}, E.cur_frame(), other,
                    lambda kv: E.setitem(o, *E.unpack(kv, 2)), lambda: None)
        for k, v in kw.items():
            E.setitem(o, k, v)
        E.dict_changed(o)

    def pop(k, *d):
        h = E.hmut(o)
        if h.d is not None:
            for kk in list(h.d):
                if E.branch(E.eq(k, kk)):
                    v = E.hmut(o).d.pop(kk)
                    E.dict_changed(o)
                    return v
            if d:
                return d[0]
            E.raise_('KeyError', k)
        f = E.fixed_key(h, k)
        if f is not None:
            v = h.fixed[f]
            E.delitem(o, k)
            return v
        t = h.m.t
        if E.branch(z3.Select(t.has(h.m.e), E.z(k, t.k))):
            v = E.val(t.v, z3.Select(t.val(h.m.e), E.z(k, t.k)))
            E.delitem(o, k)
            return v
        if d:
            return d[0]
        E.raise_('KeyError', k)

    def setdefault(k, d=None):
        if E.branch(E.contains(k, o)):
            return E.getitem(o, k)
        E.setitem(o, k, d)
        return E.getitem(o, k)

    def copy():
        return E.alloc(E.h(o).copy())

    def clear():
        h = E.hmut(o)
        h.d, h.m, h.keys, h.fixed = {}, None, None, {}
        E.dict_changed(o)
    fs = {'get': get, 'items': items, 'iteritems': items, 'values': values,
          'itervalues': values, 'keys': keys, 'iterkeys': keys,
          'update': update, 'pop': pop, 'setdefault': setdefault,
          'copy': copy, 'clear': clear,
          'has_key': lambda k: E.boolv(E.contains(k, o)),
          '__getitem__': lambda k: E.getitem(o, k),
          '__contains__': lambda k: E.boolv(E.contains(k, o))}
    if a in fs:
        return b(fs[a])
    if a == '__class__':
        return TYPES['dict']
    return None


def map_method(E, o, a):
    r = E.alloc(HDict())
    E.h(r).d = None
    E.h(r).m = o
    E.h(r).frozen = True
    return method(E, r, E.h(r), a)


def as_set(E, v, copy=False):
    if isinstance(v, Ref) and isinstance(E.h(v), HSet):
        return E.alloc(E.h(v).clone()) if copy else v
    if isinstance(v, Sym) and isinstance(v.t, TSet):
        return E.alloc(HSet(v))
    r = E.alloc(HSet())
    E.loop_over({'_': 'For', 'lineno': E.line[1]}, E.cur_frame(), v,
                lambda x: E.set_add(r, x), lambda: None)
    s = E.h(r).items
    if isinstance(s, Sym) and (isinstance(v, Sym) or isinstance(
            v, Ref) and isinstance(E.h(v), HList)):
        c = E.content(v)
        if isinstance(c, Sym):
            E._keep.append(s.e)
            E.st.ghost[('uncons', 'set of', s.e.get_id())] = c
    return r


def set_arr(E, v, t):
    return E.z(v, t)


def set_op(E, op, a, b):
    a, b = as_set(E, a), as_set(E, b)
    ia, ib = E.h(a).items, E.h(b).items
    if isinstance(ia, list) and (isinstance(ib, list) or op != 'BitOr'):
        out = []
        if op == 'BitOr':
            r = as_set(E, a, True)
            for x in ib:
                E.set_add(r, x)
            return r
        for x in ia:
            inb = E.branch(E.contains(x, b))
            if inb == (op == 'BitAnd'):
                out.append(x)
        return E.alloc(HSet(out))
    if op == 'BitOr' and isinstance(ib, Sym):
        c = E.st.ghost.get(('uncons', 'set of', ib.e.get_id()))
        if c is not None:       # a | set(c): the elements of c are added
            r = as_set(E, a, True)
            E.loop_over({'_': 'For', 'lineno': E.line[1]}, E.cur_frame(), c,
                        lambda x: E.set_add(r, x), lambda: None)
            return r
    t = join(E.typ(a), E.typ(b))
    x, y = E.z(a, t), E.z(b, t)
    k = z3.Const('k!set', t.k.sort())
    if op == 'Sub':
        e = z3.Lambda([k], z3.And(z3.Select(x, k),
                                  z3.Not(z3.Select(y, k))))
    elif op == 'BitOr':
        e = z3.Lambda([k], z3.Or(z3.Select(x, k), z3.Select(y, k)))
    elif op == 'BitAnd':
        e = z3.Lambda([k], z3.And(z3.Select(x, k), z3.Select(y, k)))
    else:
        raise Unsupported('set %s' % op)
    return E.alloc(HSet(Sym(t, e)))


def set_le(E, a, b):
    ia = E.h(a).items
    if isinstance(ia, list):
        return E.boolv(E.and_([E.contains(x, b) for x in ia]))
    t = join(E.typ(a), E.typ(b))
    k = z3.Const('k!set', t.k.sort())
    return Sym(TBool, z3.ForAll([k], z3.Implies(
        z3.Select(E.z(a, t), k), z3.Select(E.z(b, t), k))))


# -------------------------------------------------------------- instances
def inst_method(E, o, h, a):
    if h.cls.issub(EXC['BaseException']):
        if a == '__str__':
            return Builtin(a, lambda E, args, kw: to_str(E, o))
    nt = E.ntfields(h)
    if nt is not None:
        if a == '_replace':
            def rep(E, args, kw):
                d = dict(h.attrs)
                for k, v in kw.items():
                    if k not in nt:
                        E.raise_('ValueError', 'unexpected field')
                    d[k] = v
                return E.alloc(HInst(h.cls, d))
            return Builtin(a, rep)
        if a == '_asdict':
            return Builtin(a, lambda E, args, kw: E.alloc(HDict(
                dict((n, h.attrs[n]) for n in nt))))
        if a == '__getitem__':
            return Builtin(a, lambda E, args, kw: E.getitem(
                tuple(h.attrs[n] for n in nt), args[0]))
        if a == '__len__':
            return Builtin(a, lambda E, args, kw: len(nt))
    if a == '__init__':
        return Builtin(a, lambda E, args, kw: None)
    if a in ('__hash__',):
        return Builtin(a, lambda E, args, kw: E.fresh('hash', TInt))
    if a == '__eq__':
        return Builtin(a, lambda E, args, kw: o == args[0])
    return None


def class_method(E, o, a):
    if a == '__name__':
        return o.name
    if a == '__doc__':
        return None
    if a == 'mro':
        return Builtin(a, lambda E, args, kw: E.new_list(o.mro()))
    if o is TYPES['dict'] and a == 'fromkeys':
        def fromkeys(E, args, kw):
            r = E.alloc(HDict())
            E.loop_over({'_': 'For', 'lineno': E.line[1]}, E.cur_frame(),
                        args[0], lambda k: E.setitem(
                            r, k, args[1] if len(args) > 1 else None),
                        lambda: None)
            return r
        return Builtin(a, fromkeys)
    if o in (TYPES['str'], TYPES['unicode']):
        return Builtin(a, lambda E, args, kw: str_call(E, args[0], a,
                                                       args[1:]))
    if E.ntfields(HInst(o)) is not None:
        nt = E.ntfields(HInst(o))
        if a == '_make':
            return Builtin(a, lambda E, args, kw: E.instantiate(
                o, E.unpack(args[0], len(nt)), {}))
    if o is OBJECT and a == '__new__':
        return Builtin(a, lambda E, args, kw: E.alloc(HInst(args[0], {})))
    if o is OBJECT and a == '__init__':
        return Builtin(a, lambda E, args, kw: None)
    if o is TYPES['list'] and a in ('append', 'extend', '__init__',
                                    '__getitem__', 'insert'):
        def f(E, args, kw):
            if a == '__init__':
                if len(args) > 1:
                    E.list_extend(args[0], args[1])
                return None
            if a == 'append':
                return E.list_append(args[0], args[1])
            if a == 'extend':
                return E.list_extend(args[0], args[1])
            if a == '__getitem__':
                return E.seq_getitem(E.h(args[0]).content, args[1])
            raise Unsupported('list.' + a)
        return Builtin(a, f)
    return None


def super_method(E, o, a):
    if isinstance(o.obj, ClassV) or a == '__new__':
        if a == '__new__':
            if o.cls.issub(TYPES['type']):
                def new(E, args, kw):
                    meta, name, bases, dic = args
                    return E.raw_class(meta, name, [
                        E.as_class(x) for x in bases] or [OBJECT], dic)
                return Builtin('type.__new__', new)
            return Builtin('object.__new__',
                           lambda E, args, kw: E.alloc(HInst(args[0], {})))
        if a == '__init__':
            return Builtin(a, lambda E, args, kw: None)
    if isinstance(o.obj, Ref):
        h = E.h(o.obj)
        if isinstance(h, HList):
            return Builtin(a, lambda E, args, kw: E.call(
                class_method(E, TYPES['list'], a), [o.obj] + args, kw))
        if a == '__init__':
            def init(E, args, kw):
                if h.cls.issub(EXC['BaseException']):
                    E.h(o.obj).attrs['args'] = tuple(args)
            return Builtin(a, init)
        if isinstance(h, HInst):
            if a == '__eq__':
                return Builtin(a, lambda E, args, kw: o.obj == args[0])
            if a in ('__str__', '__repr__'):
                return Builtin(a, lambda E, args, kw: E.fresh('text', TStr))
            return inst_method(E, o.obj, h, a)
    return None


def ext_getattr(E, o, a):
    if a == '__name__':
        return o.dotted.split('.')[-1]
    if a == '__class__':
        return TYPES['type']
    return None


# --------------------------------------------------------------- builtins
def length(E, v):
    if isinstance(v, Sym) and isinstance(v.t, TOpt):
        v = E.unopt(v)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Sym):
        if isinstance(v.t, TSeq):
            return E.val(TInt, z3.simplify(E.len(v.t, v.e)))
        if v.t is TStr:
            return Sym(TInt, z3.Length(v.e))
        if isinstance(v.t, TTup):
            return len(v.t.els)
        if isinstance(v.t, TObj) and 'len' in v.t.hooks:
            return v.t.hooks['len'](E, v)
        if isinstance(v.t, TStruct) and v.t.cls:
            return length(E, E.thaw(v))
        if isinstance(v.t, TMap):
            return map_len(E, v)
        if v.t in (TInt, TReal, TBool, TFP):
            E.raise_('TypeError', 'object has no len()')
    if isinstance(v, Ref):
        h = E.h(v)
        if isinstance(h, HList) and h.cls is not None and \
                h.cls.lookup('__len__')[0] is not None:
            return E.call(E.getattr(v, '__len__'), [], {})
        if isinstance(h, HList):
            if isinstance(h.content, list):
                return len(h.content)
            return length(E, h.content)
        if isinstance(h, HDict):
            if h.d is not None:
                return len(h.d)
            E.unmixed(h)
            if h.keys is not None:
                return length(E, h.keys)
            return map_len(E, h.m)
        if isinstance(h, HSet):
            if isinstance(h.items, list):
                return len(h.items)
            f = z3.Function('card_' + h.items.t.name, h.items.t.sort(),
                            z3.IntSort())
            E.assume(f(h.items.e) >= 0)
            return Sym(TInt, f(h.items.e))
        if isinstance(h, HInst):
            nt = E.ntfields(h)
            if nt is not None:
                return len(nt)
            if h.cls.lookup('__len__')[0] is not None:
                return E.call(E.getattr(v, '__len__'), [], {})
        E.raise_('TypeError', 'object has no len()')
    if v is None or isinstance(v, (int, float, Fraction)):
        E.raise_('TypeError', 'object has no len()')
    if isinstance(v, TermV):
        hk = E.externals.get('len')
        if hk:
            r = hk(E, v)
            if r is not None:
                return r
    if isinstance(v, ClassV) and v.meta is not None:
        m, _ = v.meta.lookup('__len__')
        if m is not None:
            return E.call(m, [v], {})
    raise Unsupported('len(%r)' % (v,))


def map_len(E, m):
    f = z3.Function('mlen_' + m.t.name, m.t.sort(), z3.IntSort())
    E.assume(f(m.e) >= 0)
    return Sym(TInt, f(m.e))


def typename(v, E):
    """the type of a value as a ClassV, or None"""
    if v is None:
        return NONETYPE
    if isinstance(v, bool):
        return TYPES['bool']
    if isinstance(v, int):
        return TYPES['int']
    if isinstance(v, (float, Fraction)):
        return TYPES['float']
    if isinstance(v, str):
        return TYPES['str']
    if isinstance(v, tuple):
        return TYPES['tuple']
    if isinstance(v, Sym):
        t = v.t
        return {TInt.name: TYPES['int'], TReal.name: TYPES['float'],
                TFP.name: TYPES['float'], TBool.name: TYPES['bool'],
                TStr.name: TYPES['str']}.get(t.name) or (
            TYPES['list'] if isinstance(t, TSeq) else
            TYPES['tuple'] if isinstance(t, TTup) else
            TYPES['dict'] if isinstance(t, TMap) else
            TYPES['set'] if isinstance(t, TSet) else
            t.cls if isinstance(t, TStruct) else
            t.pyclass if isinstance(t, TObj) else None)
    if isinstance(v, Ref):
        h = E.h(v)
        if isinstance(h, HList):
            return h.cls or TYPES['list']
        if isinstance(h, HDict):
            return TYPES['dict']
        if isinstance(h, HSet):
            return TYPES['set']
        if isinstance(h, HInst):
            return h.cls
        return GENTYPE
    if isinstance(v, slice):
        return SLICETYPE
    if isinstance(v, ClassV):
        return v.meta or TYPES['type']
    if isinstance(v, (FuncV, BoundV, Builtin, UFun, Descr)):
        return FUNCTYPE
    return None


NONETYPE = ClassV('NoneType', [OBJECT], {})
GENTYPE = ClassV('generator', [OBJECT], {})
SLICETYPE = ClassV('slice', [OBJECT], {})
FUNCTYPE = ClassV('function', [OBJECT], {})


def isinstance_(E, v, cls):
    if isinstance(v, Sym) and isinstance(v.t, TOpt):
        v = E.unopt(v)
    if isinstance(cls, tuple):
        for c in cls:
            r = isinstance_(E, v, c)
            if isinstance(r, bool):
                if r:
                    return True
            elif E.branch(E.truth_e(r)):
                return True
        return False
    if isinstance(v, Sym) and isinstance(v.t, TObj) and \
            'isinstance' in v.t.hooks:
        r = v.t.hooks['isinstance'](E, v, cls)
        if r is not None:
            return E.boolv(r) if not isinstance(r, (bool, Sym)) else r
    t = typename(v, E)
    if isinstance(cls, ExtV):
        nm = cls.dotted
        if nm in ('collections.Iterable', 'collections.Sequence'):
            if t is not None:
                ok = t in (TYPES['list'], TYPES['tuple'], TYPES['dict'],
                           TYPES['set'], TYPES['str'], GENTYPE)
                if nm.endswith('Sequence'):
                    ok = t in (TYPES['list'], TYPES['tuple'], TYPES['str'])
                return ok or any(c.lookup('__iter__')[0] is not None
                                 for c in [t])
        hook = E.externals.get('isinstance')
        if hook:
            r = hook(E, v, cls)
            if r is not None:
                return r
        cls = E.as_class(cls)
    if t is not None and isinstance(cls, ClassV):
        return t.issub(cls)
    if isinstance(v, (TermV, ExtV)):
        hook = E.externals.get('isinstance')
        if hook:
            r = hook(E, v, cls)
            if r is not None:
                return r
    raise Unsupported('isinstance(%r, %r)' % (v, cls))


def sorted_(E, it, key=None, reverse=False):
    c = E.content(it)
    if isinstance(c, list):
        # insertion sort, branching on symbolic comparisons (stable)
        out = []
        ks = []
        for x in c:
            k = x if key is None else E.call(key, [x], {})
            i = len(out)
            while i > 0:
                lt = E.lt(k, ks[i - 1]) if not reverse else \
                    E.lt(ks[i - 1], k)
                if not E.branch(lt):
                    break
                i -= 1
            out.insert(i, x)
            ks.insert(i, k)
        return E.new_list(out)
    hook = E.externals.get('sorted')
    if hook is not None:
        r = hook(E, c, key, reverse)
        if r is not None:
            return r
    f = z3.Function('sorted_%s_%s_%s' % (c.t.el.name, key, reverse),
                    c.t.sort(), c.t.sort())
    e = f(c.e)
    E.reg(c.t, e)
    E.assume(E.len(c.t, e) == E.len(c.t, c.e))
    # the same elements, each as often
    mem = E.memfold(c.t)
    for ps in getattr(mem, 'insts', []):
        E.assume(mem(e, *ps) == mem(c.e, *ps))
    v = E.st.ghost.get(('uncons', 'elems', c.e.sexpr()))
    if v is not None:
        E.st.ghost[('uncons', 'elems', e.sexpr())] = v
        for hk in E.set_hooks:
            hk(E, Sym(TSet(c.t.el), v), Sym(c.t, e), lambda x: E.assume(
                mem(e, x) == z3.Select(v, x)))
    return E.new_list(Sym(c.t, e))


def namedtuple(E, args, kw):
    name, fields = args[:2]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = E.content(fields)
    if not isinstance(fields, list) or not all(
            isinstance(x, str) for x in fields):
        return TermV('namedtuple', (name, args[1]), {})
    cls = ClassV(name, [TYPES['tuple']], {'_fields': tuple(fields)})

    def new(E, args, kw):
        c, vals = args[0], list(args[1:])
        from .interp import StarSym
        if vals and isinstance(vals[-1], StarSym):
            st = vals.pop().seq
            vals += E.unpack(st, len(fields) - len(vals))
        d = {}
        if len(vals) > len(fields):
            E.raise_('TypeError', '__new__() takes fewer arguments')
        for n, v in zip(fields, vals):
            d[n] = v
        for n, v in kw.items():
            if n in d or n not in fields:
                E.raise_('TypeError', 'unexpected argument %s' % n)
            d[n] = v
        if len(d) != len(fields):
            E.raise_('TypeError', 'missing argument')
        return E.alloc(HInst(c, dict((n, d[n]) for n in fields)))
    cls.attrs['__new__'] = Builtin('namedtuple.__new__', new)
    return cls


def install(E):
    B = E.builtins

    def reg(name):
        def deco(f):
            B[name] = Builtin(name, f)
            return f
        return deco
    for n in ('True', 'False', 'None'):
        B[n] = {'True': True, 'False': False, 'None': None}[n]
    for n, c in EXC.items():
        B[n] = c
    for n, c in TYPES.items():
        B[n] = c
    B['object'] = OBJECT
    B['NotImplemented'] = TermV('NotImplemented', (), {})
    B['Ellipsis'] = TermV('Ellipsis', (), {})

    @reg('len')
    def _(E, args, kw):
        return length(E, args[0])

    @reg('property')
    def _(E, args, kw):
        return Descr('property', args[0])

    @reg('classmethod')
    def _(E, args, kw):
        return Descr('classmethod', args[0])

    @reg('staticmethod')
    def _(E, args, kw):
        return Descr('staticmethod', args[0])

    @reg('isinstance')
    def _(E, args, kw):
        return isinstance_(E, args[0], args[1])

    @reg('issubclass')
    def _(E, args, kw):
        c, d = args
        if c is None or isinstance(c, (int, str, float, bool, tuple)) or \
                isinstance(c, Ref) and not isinstance(E.h(c), ClassV):
            E.raise_('TypeError', 'issubclass() arg 1 must be a class')
        if isinstance(d, tuple):
            if not isinstance(c, ClassV):
                raise Unsupported('issubclass')
            return any(isinstance(c, ClassV) and c.issub(E.as_class(x))
                       for x in d)
        if isinstance(c, ClassV):
            return c.issub(E.as_class(d))
        raise Unsupported('issubclass')

    @reg('hasattr')
    def _(E, args, kw):
        o, a = args
        if isinstance(o, Sym) and isinstance(o.t, TObj) and \
                'hasattr' in o.t.hooks:
            return E.boolv(o.t.hooks['hasattr'](E, o, a))
        try:
            E.getattr(o, a)
            return True
        except PyExc:
            return False

    @reg('getattr')
    def _(E, args, kw):
        a = args[1]
        if not isinstance(a, str):
            o = args[0]
            if isinstance(o, Sym) and isinstance(o.t, TObj) and \
                    'getattr_sym' in o.t.hooks:
                return o.t.hooks['getattr_sym'](E, o, a)
            if isinstance(o, (TermV, ExtV)):
                return TermV('getattr', (o, a), {})
            hk = E.externals.get('getattr_sym')
            if hk:
                try:
                    r = hk(E, o, a)
                except PyExc as e:
                    if len(args) > 2 and E.exc_matches(
                            e.value, EXC['AttributeError']):
                        return args[2]
                    raise
                if r is not None:
                    return r
            raise Unsupported('getattr with a symbolic name')
        if len(args) == 2:
            return E.getattr(args[0], a)
        try:
            return E.getattr(args[0], a)
        except PyExc as e:
            if E.exc_matches(e.value, EXC['AttributeError']):
                return args[2]
            raise

    @reg('setattr')
    def _(E, args, kw):
        if not isinstance(args[1], str):
            o = args[0]
            if isinstance(o, Sym) and isinstance(o.t, TObj) and \
                    'setattr_sym' in o.t.hooks:
                return o.t.hooks['setattr_sym'](E, *args)
            raise Unsupported('setattr with a symbolic name')
        E.setattr(*args)

    @reg('range')
    def _(E, args, kw):
        if all(isinstance(x, int) for x in args):
            return E.new_list(list(range(*args)))
        return rng(E, args)

    @reg('xrange')
    def _(E, args, kw):
        if all(isinstance(x, int) for x in args):
            return E.new_list(list(range(*args)))
        return rng(E, args)

    def rng(E, args):
        if len(args) == 1:
            lo, n = 0, args[0]
        elif len(args) == 2:
            lo = args[0]
            n = E.arith('Sub', args[1], args[0])
        else:
            raise Unsupported('range with a step')
        return E.alloc(HZip([('range', lo, n)], lambda xs: xs[0]))

    @reg('enumerate')
    def _(E, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        return E.alloc(HZip([('count', start), args[0]], tuple))

    def zip_(E, args, kw):
        if len(args) == 1:
            from .interp import StarSym
            if isinstance(args[0], StarSym):
                raise Unsupported('zip(*x)')
        cs = []
        for x in args:
            if isinstance(x, Ref) and isinstance(E.h(x), HZip) and \
                    len(E.h(x).sources) == 1:
                cs.append(E.h(x).sources[0])
            else:
                c = E.content(x)
                cs.append(E.new_list(c))
        return E.alloc(HZip(cs, tuple))

    @reg('zip')
    def _(E, args, kw):
        r = zip_(E, args, kw)
        h = E.h(r)
        if not any(isinstance(s, tuple) for s in h.sources) and any(
                isinstance(E.h(s).content, Sym) for s in h.sources):
            return r        # lazily: zip is only iterated or listed
        return E.new_list(E.content(r))
    E.zip_ = zip_

    def pre(name, builtin):
        def f(E, args, kw):
            return call_prelude(E, name, *args)
        B[builtin] = Builtin(builtin, f)
    pre('sum', 'sum')

    def allany(name):
        def f(E, args, kw, fr=None):
            return call_prelude(E, name, *args)
        B[name] = Builtin(name, f)
    allany('all')
    allany('any')

    @reg('reduce')
    def _(E, args, kw):
        if len(args) == 2:
            return call_prelude(E, 'reduce1', *args)
        return call_prelude(E, 'reduce3', *args)

    @reg('map')
    def _(E, args, kw):
        if len(args) == 2:
            return call_prelude(E, 'map1', *args)
        raise Unsupported('map of several sequences')

    @reg('filter')
    def _(E, args, kw):
        if args[0] is None:
            return call_prelude(E, 'filter0', args[1])
        return call_prelude(E, 'filter1', *args)

    def minmax(name):
        def f(E, args, kw):
            if kw:
                raise Unsupported('%s with a key' % name)
            if len(args) == 1:
                return call_prelude(E, name + '1', args[0])
            best = args[0]
            for x in args[1:]:
                c = E.lt(x, best) if name == 'min' else E.lt(best, x)
                if E.branch(c):
                    best = x
            return best
        B[name] = Builtin(name, f)
    minmax('min')
    minmax('max')

    @reg('abs')
    def _(E, args, kw):
        v = args[0]
        if isinstance(v, Sym):
            if v.t is TFP:
                return Sym(TFP, z3.fpAbs(v.e))
            return Sym(v.t, z3.If(v.e >= 0, v.e, -v.e))
        return abs(v)

    @reg('round')
    def _(E, args, kw):
        if all(not isinstance(x, Sym) for x in args):
            return round(float(args[0]), *args[1:])
        f = z3.Function('round', TReal.sort(), TInt.sort(), TReal.sort())
        return Sym(TReal, f(E.z(args[0], TReal), E.z(
            args[1] if len(args) > 1 else 0, TInt)))

    @reg('sorted')
    def _(E, args, kw):
        return sorted_(E, args[0], kw.get('key') or (
            args[2] if len(args) > 2 else None), kw.get('reverse', False))

    @reg('reversed')
    def _(E, args, kw):
        c = E.content(args[0])
        if isinstance(c, list):
            return E.new_list(c[::-1])
        return E.new_list(reversed_seq(E, c))

    @reg('iter')
    def _(E, args, kw):
        v = args[0]
        if isinstance(v, Ref) and isinstance(E.h(v), (HGen, HZip)):
            return v
        if isinstance(v, Ref) and isinstance(E.h(v), HInst) and \
                E.h(v).cls.lookup('__iter__')[0] is not None:
            return E.call(E.getattr(v, '__iter__'), [], {})
        if isinstance(v, Sym) and isinstance(v.t, TObj) and \
                'iterator' in v.t.hooks:
            return v.t.hooks['iterator'](E, v)
        return E.alloc(HGen(None, E.content(v)))

    @reg('next')
    def _(E, args, kw):
        try:
            return E.call(E.getattr(args[0], 'next'), [], {})
        except PyExc as e:
            if len(args) > 1 and E.exc_matches(e.value,
                                               EXC['StopIteration']):
                return args[1]
            raise

    @reg('slice')
    def _(E, args, kw):
        return slice(*args)

    @reg('callable')
    def _(E, args, kw):
        v = args[0]
        if isinstance(v, (FuncV, BoundV, Builtin, ClassV, UFun)):
            return True
        if isinstance(v, Ref) and isinstance(E.h(v), HInst):
            return E.h(v).cls.lookup('__call__')[0] is not None
        if isinstance(v, (ExtV, TermV)):
            raise Unsupported('callable')
        return False

    @reg('id')
    def _(E, args, kw):
        v = args[0]
        if isinstance(v, Sym):
            return Sym(TInt, z3.Function('id_' + v.t.name, v.t.sort(),
                                         z3.IntSort())(v.e))
        if isinstance(v, Ref):
            return v.oid
        raise Unsupported('id(%r)' % (v,))

    @reg('hash')
    def _(E, args, kw):
        return E.fresh('hash', TInt)

    @reg('repr')
    def _(E, args, kw):
        return to_str(E, args[0], 'r')

    @reg('vars')
    def _(E, args, kw, fr=None):
        if not args:
            d = E.st.frames[fr.fid]
            return E.alloc(HDict(dict(d)))
        o = args[0]
        if isinstance(o, ModuleV):
            return E.alloc(HDict(dict(o.env)))
        if isinstance(o, Ref) and (isinstance(E.h(o), HInst) or isinstance(
                E.h(o), HList) and E.h(o).cls is not None):
            return inst_dict(E, o)
        if isinstance(o, Sym) and isinstance(o.t, TObj) and \
                'vars' in o.t.hooks:
            return o.t.hooks['vars'](E, o)
        return E.getattr(o, '__dict__')

    @reg('locals')
    def _(E, args, kw, fr=None):
        return E.alloc(HDict(dict(E.st.frames[fr.fid])))

    @reg('globals')
    def _(E, args, kw, fr=None):
        return E.alloc(HDict(dict(fr.module.env)))

    @reg('super')
    def _(E, args, kw, fr=None):
        from .interp import SuperV
        cls, obj = args
        s = SuperV(cls, obj)
        start = obj if isinstance(obj, ClassV) else E.h(obj).cls
        mro = start.mro() if cls in start.mro() else cls.mro()
        s.mro_after = [c for c in mro[mro.index(cls) + 1:]
                       if c not in (OBJECT,) and c not in TYPES.values()]
        return s

    @reg('open')
    def _(E, args, kw):
        return E.call_ext('open', args, kw)

    @reg('file')
    def _(E, args, kw):
        return E.call_ext('open', args, kw)

    @reg('unichr')
    def _(E, args, kw):
        raise Unsupported('unichr')

    @reg('divmod')
    def _(E, args, kw):
        return (E.arith('FloorDiv', *args), E.arith('Mod', *args))

    @reg('cmp')
    def _(E, args, kw):
        if E.branch(E.lt(*args)):
            return -1
        return 0 if E.branch(E.eq(*args)) else 1

    @reg('pow')
    def _(E, args, kw):
        return E.arith('Pow', *args)

    # types as constructors
    T_ = E.builtins_types

    def t_list(E, args, kw):
        if not args:
            return E.new_list()
        r = E.new_list()
        E.list_extend(r, args[0])
        h = E.h(r)
        return r

    def t_tuple(E, args, kw):
        if not args:
            return ()
        c = E.content(args[0])
        if isinstance(c, list):
            return tuple(c)
        r = E.new_list(c)
        E.h(r).frozen = True
        return c

    def t_dict(E, args, kw):
        if args and isinstance(args[0], Ref) and isinstance(
                E.h(args[0]), HDict) and E.h(args[0]).d is None:
            r = E.alloc(E.h(args[0]).copy())
            E.h(r).default = None
            E.h(r).ordered = E.h(r).frozen = False
            args = args[1:]
        else:
            r = E.alloc(HDict())
        E.call(method(E, r, E.h(r), 'update'), args, kw)
        return r

    def t_set(E, args, kw):
        if not args:
            return E.alloc(HSet())
        return as_set(E, args[0], True)

    def t_str(E, args, kw):
        return to_str(E, args[0]) if args else ''

    def t_bool(E, args, kw):
        if not args:
            return False
        e = E.truth_e(args[0])
        if e is None:
            return E.truth(args[0])
        return E.boolv(e)

    def t_type(E, args, kw):
        if len(args) == 3:
            name, bases, dic = args
            return E.make_class(name, list(bases), dict(E.h(dic).d),
                                ModuleV('dynamic'))
        v = args[0]
        if isinstance(v, Sym) and isinstance(v.t, TObj) and \
                'type' in v.t.hooks:
            return v.t.hooks['type'](E, v)
        t = typename(v, E)
        if t is None:
            if isinstance(v, (TermV,)):
                return TermV('type', (v,), {})
            raise Unsupported('type(%r)' % (v,))
        return t
    T_.update(list=t_list, tuple=t_tuple, dict=t_dict, set=t_set,
              frozenset=t_set, str=t_str, unicode=t_str, bool=t_bool,
              type=t_type,
              float=lambda E, a, k: to_float(E, a[0]) if a else 0.0,
              int=lambda E, a, k: to_int(E, a[0]) if a else 0,
              long=lambda E, a, k: to_int(E, a[0]) if a else 0)


def inst_dict(E, o):
    """a live view of the attributes, for update()"""
    r = E.alloc(HDict(dict(E.h(o).attrs)))
    h = E.h(r)

    def onupdate(E, hh):
        at = E.hmut(o).attrs
        at.clear()
        at.update(hh.d)
    h.onupdate = onupdate
    return r


# --------------------------------------------------- the standard library
def ext_ceil(E, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        if v.t is TInt:
            return E.val(TReal, z3.ToReal(v.e))
        if v.t is TReal:
            return E.val(TReal, z3.simplify(z3.ToReal(-z3.ToInt(-v.e))))
        raise Unsupported('ceil of a float')
    import math
    return Fraction(math.ceil(v)) if E.float_mode == 'real' else \
        float(math.ceil(v))


def ext_floor(E, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        if v.t is TReal:
            return E.val(TReal, z3.simplify(z3.ToReal(z3.ToInt(v.e))))
        if v.t is TInt:
            return E.val(TReal, z3.ToReal(v.e))
        raise Unsupported('floor of a float')
    import math
    return Fraction(math.floor(v))


def attrgetter(E, args, kw):
    names = args

    def get(E, a, k):
        vals = []
        for n in names:
            o = a[0]
            for part in n.split('.'):
                o = E.getattr(o, part)
            vals.append(o)
        return vals[0] if len(vals) == 1 else tuple(vals)
    return UFun('attrgetter_' + '_'.join(names), get)


def itemgetter(E, args, kw):
    def get(E, a, k):
        vals = [E.getitem(a[0], n) for n in args]
        return vals[0] if len(vals) == 1 else tuple(vals)
    return UFun('itemgetter', get)


def oper(op):
    return lambda E, args, kw: E.binop(op, args[0], args[1])


def groupby(E, args, kw):
    key = args[1] if len(args) > 1 else kw.get('key')
    if key is None:
        key = UFun('identity', lambda E, a, k: a[0])
    hook = E.externals.get('groupby')
    if hook:
        r = hook(E, args[0], key)
        if r is not None:
            return r
    return E.alloc(HGen(None, E.content(call_prelude(
        E, 'groupby', args[0], key))))


def product(E, args, kw):
    from .interp import StarSym
    if args and isinstance(args[-1], StarSym):
        hook = E.externals.get('product')
        if hook:
            return hook(E, args)
        raise Unsupported('itertools.product of a symbolic list')
    import itertools
    cs = [E.content(a) for a in args]
    if all(isinstance(c, list) for c in cs):
        return E.new_list([tuple(x) for x in itertools.product(*cs)])
    raise Unsupported('itertools.product of symbolic sequences')


def copy_copy(E, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        h = E.h(v)
        h = h.copy() if isinstance(h, HDict) else h.clone()
        h.frozen = False
        return E.alloc(h)
    if isinstance(v, Sym) and isinstance(v.t, TStruct):
        r = E.thaw(v)
        E.h(r).frozen = False
        return r
    if isinstance(v, Sym) and isinstance(v.t, TObj) and 'copy' in v.t.hooks:
        return v.t.hooks['copy'](E, v)
    if isinstance(v, (tuple, str, int, float, Fraction)) or v is None:
        return v
    raise Unsupported('copy of %r' % (v,))


def exc_info(E, args, kw):
    if not E.exc_stack:
        return (None, None, None)
    e = E.exc_stack[-1]
    return (E.h(e).cls, e, TermV('tb', (), {}))


def path_join(E, args, kw):
    if all(isinstance(a, str) for a in args):
        return os.path.join(*args)
    if len(args) == 2:
        f = fn('os_path_join', TStr, TStr, TStr)
        return Sym(TStr, f(E.z(args[0], TStr), E.z(args[1], TStr)))
    raise Unsupported('os.path.join')


def ustr(name, ret):
    def f(E, args, kw):
        if not all(E.kind(a) == 'str' for a in args):
            raise Unsupported(name)
        g = fn(name.replace('.', '_'), *([TStr] * len(args) + [ret]))
        return E.val(ret, g(*[E.z(a, TStr) for a in args]))
    return f


def defaultdict(E, args, kw):
    r = E.alloc(HDict())
    if args:
        E.h(r).default = args[0]
        if len(args) > 1:
            E.call(method(E, r, E.h(r), 'update'), args[1:], kw)
    return r


def attr_unsupported(name):
    raise Unsupported('call of external method %s' % name)


def ext_isnan(E, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        if v.t is TFP:
            return E.boolv(z3.fpIsNaN(v.e))
        if v.t in (TReal, TInt):
            return False
    elif isinstance(v, (int, Fraction)):
        return False
    elif isinstance(v, float):
        return v != v
    raise Unsupported('isnan(%r)' % (v,))


def partial(E, args, kw):
    f, pre, pkw = args[0], list(args[1:]), dict(kw)

    def call(E, a, k):
        return E.call(f, pre + list(a), dict(pkw, **k))
    return UFun('partial', call)


def ordered_dict(E, a, k):
    r = E.builtins_types['dict'](E, a, k)
    E.h(r).ordered = True
    return r


EXTERNALS = {
    'math.ceil': ext_ceil, 'math.floor': ext_floor,
    'collections.namedtuple': namedtuple,
    'collections.OrderedDict': ordered_dict,
    'collections.OrderedDict.fromkeys': lambda E, a, k: ordered_dict(
        E, [call_prelude(E, 'with_value', a[0], a[1] if len(a) > 1
                         else None)], {}),
    'collections.defaultdict': defaultdict,
    'math.isnan': ext_isnan,
    'math.fabs': lambda E, a, k: E.call(E.builtins['abs'], a),
    'functools.partial': partial,
    'functools.reduce': lambda E, a, k: E.call(E.builtins['reduce'], a),
    'itertools.ifilter': lambda E, a, k: E.call(E.builtins['filter'], a),
    'os.path.split': lambda E, a, k: (
        E.call_ext('os.path.dirname', a, k),
        E.call_ext('os.path.basename', a, k)),
    'operator.attrgetter': attrgetter, 'operator.itemgetter': itemgetter,
    'operator.add': oper('Add'), 'operator.mul': oper('Mult'),
    'operator.sub': oper('Sub'),
    'itertools.izip': lambda E, a, k: E.zip_(E, a, k),
    'itertools.groupby': groupby, 'itertools.product': product,
    'itertools.starmap': lambda E, a, k: call_prelude(E, 'starmap', *a),
    'itertools.chain': lambda E, a, k: call_prelude(
        E, 'chain', E.new_list(a)),
    'itertools.chain.from_iterable': lambda E, a, k: call_prelude(
        E, 'chain', *a),
    'itertools.takewhile': lambda E, a, k: call_prelude(E, 'takewhile', *a),
    'itertools.imap': lambda E, a, k: call_prelude(E, 'map1', *a),
    'itertools.count': lambda E, a, k: E.alloc(CounterV.make(
        a[0] if a else 0)),
    'copy.copy': copy_copy,
    'sys.exc_info': exc_info,
    'os.path.join': path_join,
    'os.path.isabs': ustr('os.path.isabs', TBool),
    'os.path.abspath': ustr('os.path.abspath', TStr),
    'os.path.dirname': ustr('os.path.dirname', TStr),
    'os.path.basename': ustr('os.path.basename', TStr),
    'os.path.normpath': ustr('os.path.normpath', TStr),
    'os.path.exists': ustr('os.path.exists', TBool),
    're.compile': lambda E, a, k: TermV('regex', tuple(a), k),
    'attr:match': lambda E, a, k: regex_match(E, a[0].args[0], a[1])
    if isinstance(a[0].args[0], TermV) and a[0].args[0].fn == 'regex'
    else attr_unsupported('match'),
    're.match': lambda E, a, k: regex_match(E, a[0], a[1]),
    'abc.abstractmethod': lambda E, a, k: a[0],
    'abc.abstractproperty': lambda E, a, k: Descr('property', a[0]),
}


class CounterV(HInst):
    @staticmethod
    def make(start):
        h = HInst(COUNTER, {'n': start})
        return h


def _cnext(E, args, kw):
    h = E.hmut(args[0])
    n = h.attrs['n']
    h.attrs['n'] = E.arith('Add', n, 1)
    return n


COUNTER = ClassV('count', [OBJECT], {'next': Builtin('count.next', _cnext)})


def abccls(name):
    def f(E):
        m = E.module('_abcoll')
        if m is None:
            raise Unsupported('no _abcoll')
        return m.env[name]
    return f


EXT_BASES = {
    'collections.MutableSequence': abccls('MutableSequence'),
    'collections.Sequence': abccls('Sequence'),
    'collections.MutableMapping': abccls('MutableMapping'),
    'collections.Mapping': abccls('Mapping'),
    'abc.ABCMeta': lambda E: TYPES['type'],
    'builtins.type': lambda E: TYPES['type'],
}
EXT_VALUES = {
    'sys.maxint': lambda E: 2 ** 63 - 1,
    'abc.ABCMeta': lambda E: ExtV('abc.ABCMeta'),
    'os.sep': lambda E: '/',
    'collections.Iterable': lambda E: ExtV('collections.Iterable'),
}
EXT_EXC = {
    'openquake.nrmllib.InvalidFile': 'Exception',
    'etree.XMLSyntaxError': 'SyntaxError',
    'lxml.etree.XMLSyntaxError': 'SyntaxError',
    'ConfigParser.NoOptionError': 'Exception',
    'Queue.Empty': 'Exception',
    'cPickle.UnpicklingError': 'Exception',
    'decimal.InvalidOperation': 'ArithmeticError',
    'zipfile.BadZipfile': 'Exception',
}
