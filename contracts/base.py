"""Helpers shared by the contracts."""
import z3

from pydv.engine import (Engine, Fold, UFun, Sym, Ref, PyExc, EXC, TYPES,
                         ExtV, TermV, HInst, HList, HDict, Unsupported,
                         ClassV, FuncV, BoundV, Builtin, OBJECT)
from pydv.types import (TInt, TReal, TBool, TStr, TFP, TNone, TObj, TSeq,
                        TTup, TStruct, TOpt, TMap, TSet)
from pydv.run import Task, reach

T = z3.BoolVal(True)
F = z3.BoolVal(False)


def is_exc(E, e, name):
    """the exception is an instance of the builtin class `name`"""
    return E.h(e.value).cls.issub(EXC[name])


def exc_is(E, e, dotted):
    return E.h(e.value).cls.issub(E.lookup_path(dotted))


def attempt(E, fn):
    """(value, None) or (None, PyExc)"""
    try:
        return fn(), None
    except PyExc as e:
        return None, e


def And(*a):
    return z3.And(*a)


def sticky(E, fold):
    """a fold giving the first offender: once found it stays (proved), which
    is used wherever a sequence is split"""
    t, o = fold.dom, fold.ret
    r = z3.Const('head of ' + fold.name, t.sort())
    E.induct('%s: the first stays' % fold.name, t, lambda s: z3.Implies(
        z3.Not(o.is_none(fold(r))), fold(E.cat(t, r, s)) == fold(r)))

    def at(E, seq, p, x, rest):
        if seq.t == t:
            px = t.rawsnoc(p, x)
            E.assume(z3.Implies(z3.Not(o.is_none(fold(px))),
                                fold(seq.e) == fold(px)))
    E.split_hooks.append(at)


def mentions(E, text, msg, x):
    """the text x occurs in the message as it is, or as repr shows it"""
    c = z3.Contains(msg, x)
    if E.record and E.valid(c, 3000)[0] != 'proved':
        from pydv.builtins_ import to_str
        r = to_str(E, Sym(TStr, x), 'r').e
        c2 = z3.Contains(msg, r)
        if E.valid(c2, 3000)[0] == 'proved':
            c = c2
    E.prove(text, c)


def members(E, t, x):
    """in loops over a sequence of type t: x was (not) seen so far"""
    mem = E.memfold(t)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != t:
            return []
        return [('seen', lambda p, L: mem(p, x)),
                ('not seen', lambda p, L: z3.Not(mem(p, x)))]
    E.templates.append(tmpl)

    def at(E, seq, p, y, rest):
        if seq.t == t:
            E.assume(mem(seq.e, x) == z3.Or(mem(p, x), y == x, mem(rest, x)))
    E.split_hooks.append(at)
    return mem
