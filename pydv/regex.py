"""re.match with a concrete pattern over a symbolic text."""
import re

try:
    import re._parser as sre
    import re._constants as K
except ImportError:      # pragma: no cover
    import sre_parse as sre
    import sre_constants as K
import z3

from . import lang
from .types import TStr, TBool
from .engine import Unsupported, PathEnd, Sym, TermV, Builtin, HInst, ClassV, OBJECT

S = z3.StringSort()
RS = z3.ReSort(S)


def ch(lo, hi):
    return z3.Range(chr(lo), chr(hi))


def lit(c):
    return z3.Re(z3.StringVal(chr(c)))


def anychar():
    return z3.AllChar(RS)


CATS = {
    K.CATEGORY_DIGIT: lambda: [ch(48, 57)],
    K.CATEGORY_WORD: lambda: [ch(48, 57), ch(65, 90), ch(97, 122), lit(95)],
    K.CATEGORY_SPACE: lambda: [lit(32), ch(9, 13)],
}
NEG = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT,
       K.CATEGORY_NOT_WORD: K.CATEGORY_WORD,
       K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE}


def union(xs):
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def concat(xs):
    if not xs:
        return z3.Re(z3.StringVal(''))
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def minus(x):
    return z3.Intersect(anychar(), z3.Complement(x))


def node(op, av):
    if op is K.LITERAL:
        return lit(av)
    if op is K.NOT_LITERAL:
        return minus(lit(av))
    if op is K.ANY:
        return minus(lit(10))
    if op is K.IN:
        neg = False
        alts = []
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                alts.append(lit(a))
            elif o is K.RANGE:
                alts.append(ch(*a))
            elif o is K.CATEGORY:
                if a in CATS:
                    alts.extend(CATS[a]())
                elif a in NEG:
                    alts.append(minus(union(CATS[NEG[a]]())))
                else:
                    raise Unsupported('regex category')
            else:
                raise Unsupported('regex set')
        r = union(alts)
        return minus(r) if neg else r
    if op is K.BRANCH:
        return union([seq(x) for x in av[1]])
    if op is K.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported('regex flags')
        return seq(av[3])
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = av
        r = seq(sub)
        if hi is K.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported('regex construct %s' % op)


def seq(items):
    return concat([node(o, a) for o, a in items])


def expand(items):
    """alternatives: lists of (regex or marker, group or None)"""
    out = [[]]
    for op, av in items:
        if op is K.BRANCH:
            alts = [e for x in av[1] for e in expand(x)]
        elif op is K.SUBPATTERN and av[0] is None and not (av[1] or av[2]):
            alts = expand(av[3])
        elif op is K.SUBPATTERN:
            alts = [[(seq(av[3]), av[0])]]
        elif op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                alts = [[('^', None)]]
            elif av is K.AT_END:
                alts = [[('$', None)]]
            elif av is K.AT_END_STRING:
                alts = [[('Z', None)]]
            else:
                raise Unsupported('regex anchor')
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT) and any(
                o is K.SUBPATTERN and a[0] is not None for o, a in av[2]):
            lo, hi, sub = av
            if (lo, hi) != (0, 1):
                raise Unsupported('repeated group')
            alts = expand(sub) + [[]]
        else:
            alts = [[(node(op, av), None)]]
        out = [a + b for a in out for b in alts]
    return out


MATCH = ClassV('MatchObject', [OBJECT], {})


def regex_match(E, pat, text, flags=None):
    """None or a match object with its groups"""
    if isinstance(pat, TermV) and pat.fn == 'regex':
        if len(pat.args) > 1:
            raise Unsupported('regex flags')
        pat = pat.args[0]
    if not isinstance(pat, str):
        raise Unsupported('a symbolic regex')
    tree = sre.parse(pat.replace('\\Z', r'\Z'))
    ngroups = tree.state.groups - 1
    names = dict(tree.state.groupdict)
    if isinstance(text, str):
        m = re.compile(pat, re.ASCII).match(text)
        if m is None:
            return None
        return mk(E, dict((i, m.group(i)) for i in range(ngroups + 1)),
                  names)
    if not (isinstance(text, Sym) and text.t is TStr):
        if E.kind(text) in ('num', 'seq', 'tup') or text is None:
            E.raise_('TypeError', 'expected string')
        raise Unsupported('regex on %r' % (text,))
    s = text.e
    whole = whole_regex(list(tree))
    for spec in E.languages:
        if whole is not None and lang.same(pat, spec):
            # the same texts: written as in the specification
            whole = whole_regex(list(sre.parse(spec)))
            break
    if whole is None:
        return groups_of(E, tree, s, ngroups, names)
    if not E.branch(z3.InRe(s, whole)):
        return None
    cell = []

    def groups():
        if not cell:
            m = groups_of(E, tree, s, ngroups, names)
            if m is None:
                raise PathEnd('no alternative matches')
            cell.append(E.h(m).attrs['groups'])
        return cell[0]
    return mk(E, groups, names)


def language(E, pattern):
    """the language of a pattern, as a regex of the specification"""
    if pattern not in E.languages:
        E.languages.append(pattern)
    return whole_regex(list(sre.parse(pattern)))


def whole_regex(items):
    """the regex of the whole text, if anchors are at its ends only"""
    items = list(items)
    if items and items[0][0] is K.AT and items[0][1] in (
            K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        items = items[1:]
    tail = z3.Full(RS)
    if items and items[-1][0] is K.AT:
        if items[-1][1] is K.AT_END:
            tail = z3.Option(lit(10))
        elif items[-1][1] is K.AT_END_STRING:
            tail = None
        else:
            return None
        items = items[:-1]
    try:
        rs = [node(o, a) for o, a in items]
    except Unsupported:
        return None
    return concat(rs + ([tail] if tail is not None else []))


def groups_of(E, tree, s, ngroups, names):
    full = z3.Full(RS)
    for alt in expand(list(tree)):
        segs = []
        tail = full
        bad = False
        for i, (r, g) in enumerate(alt):
            if r == '^' if isinstance(r, str) else False:
                if segs:
                    raise Unsupported('^ inside a regex')
                continue
            if isinstance(r, str):
                if i != len(alt) - 1:
                    raise Unsupported('$ inside a regex')
                tail = z3.Re(z3.StringVal('')) if r == 'Z' else \
                    z3.Option(lit(10))
                continue
            segs.append((r, g))
        whole = concat([r for r, _ in segs] + [tail])
        if not E.branch(z3.InRe(s, whole)):
            continue
        groups = dict((i, None) for i in range(1, ngroups + 1))
        parts = []
        # consecutive segments without group are merged
        run = []
        for r, g in segs:
            if g is None:
                run.append(r)
            else:
                if run:
                    x = E.fresh('seg', TStr).e
                    E.assume(z3.InRe(x, concat(run)))
                    parts.append(x)
                    run = []
                x = E.fresh('grp', TStr).e
                E.assume(z3.InRe(x, r))
                parts.append(x)
                groups[g] = E.val(TStr, x)
        if run:
            x = E.fresh('seg', TStr).e
            E.assume(z3.InRe(x, concat(run)))
            parts.append(x)
        rest = E.fresh('rest', TStr).e
        E.assume(z3.InRe(rest, tail))
        E.assume(s == z3.Concat(*(parts + [rest])) if parts else s == rest)
        groups[0] = E.val(TStr, z3.simplify(
            z3.Concat(*parts) if len(parts) > 1 else
            parts[0] if parts else z3.StringVal('')))
        return mk(E, groups, names)
    return None


def mk(E, groups_, names):
    get = groups_ if callable(groups_) else lambda: groups_

    def group(E, args, kw):
        groups = get()
        g = args[0] if args else 0
        g = names.get(g, g)
        if g not in groups:
            E.raise_('IndexError', 'no such group')
        return groups[g]
    cls = ClassV('MatchObject', [OBJECT], {
        'group': Builtin('group', lambda E, a, k: group(E, a[1:], k)),
        'groups': Builtin('groups', lambda E, a, k: tuple(
            get()[i] for i in sorted(get()) if i)),
        'end': Builtin('end', lambda E, a, k: Sym(
            __import__('pydv.types', fromlist=['TInt']).TInt,
            z3.Length(E.z(get()[0], TStr))))})
    return E.alloc(HInst(cls, {} if callable(groups_) else
                         {'groups': groups_}))
