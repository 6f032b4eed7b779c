"""Equality of regular languages (the texts matched by re.match), by
comparison of deterministic automata."""
import re

try:
    import re._parser as sre
    import re._constants as K
except ImportError:      # pragma: no cover
    import sre_parse as sre
    import sre_constants as K

CAT = {K.CATEGORY_DIGIT: r'[0-9]', K.CATEGORY_WORD: r'[0-9A-Za-z_]',
       K.CATEGORY_SPACE: r'[ \t-\r]',
       K.CATEGORY_NOT_DIGIT: r'[^0-9]',
       K.CATEGORY_NOT_WORD: r'[^0-9A-Za-z_]',
       K.CATEGORY_NOT_SPACE: r'[^ \t-\r]'}
CHARS = [chr(i) for i in range(256)]


class NoLang(Exception):
    pass


class Nfa(object):
    def __init__(self):
        self.eps, self.tr = [], []

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, items, a, b):
        """a path from a to b for each text of the sequence"""
        items = list(items)
        for op, av in items[:-1]:
            n = self.state()
            self.one(op, av, a, n)
            a = n
        if items:
            self.one(items[-1][0], items[-1][1], a, b)
        else:
            self.eps[a].append(b)

    def one(self, op, av, a, b):
        if op is K.LITERAL:
            self.tr[a].append((frozenset([chr(av)]), b))
        elif op is K.NOT_LITERAL:
            self.tr[a].append((frozenset(CHARS) - {chr(av)}, b))
        elif op is K.ANY:
            self.tr[a].append((frozenset(CHARS) - {'\n'}, b))
        elif op is K.IN:
            s, neg = set(), False
            for o, x in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    s.add(chr(x))
                elif o is K.RANGE:
                    if x[1] > 255:
                        raise NoLang
                    s.update(chr(i) for i in range(x[0], x[1] + 1))
                elif o is K.CATEGORY and x in CAT:
                    s.update(c for c in CHARS if re.match(CAT[x], c))
                else:
                    raise NoLang
            self.tr[a].append((frozenset(CHARS) - s if neg else
                               frozenset(s), b))
        elif op is K.BRANCH:
            for x in av[1]:
                self.build(x, a, b)
        elif op is K.SUBPATTERN and not (av[1] or av[2]):
            self.build(av[3], a, b)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 50 or (hi is not K.MAXREPEAT and hi > 50):
                raise NoLang
            for _ in range(lo):
                n = self.state()
                self.build(sub, a, n)
                a = n
            if hi is K.MAXREPEAT:
                n = self.state()
                self.eps[a].append(n)
                m = self.state()
                self.build(sub, n, m)
                self.eps[m].append(n)
                self.eps[n].append(b)
            else:
                self.eps[a].append(b)
                for _ in range(hi - lo):
                    n = self.state()
                    self.build(sub, a, n)
                    self.eps[n].append(b)
                    a = n
        else:
            raise NoLang

    def close(self, ss):
        todo, seen = list(ss), set(ss)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)


def automaton(pattern):
    items = list(sre.parse(pattern.replace('\\Z', r'\Z')))
    if items and items[0][0] is K.AT and items[0][1] in (
            K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        items = items[1:]
    n = Nfa()
    a, b = n.state(), n.state()
    if items and items[-1][0] is K.AT:
        end = items.pop()[1]
        m = n.state()
        n.build(items, a, m)
        n.eps[m].append(b)
        if end is K.AT_END:
            n.tr[m].append((frozenset('\n'), b))
        elif end is not K.AT_END_STRING:
            raise NoLang
    else:
        n.build(items, a, b)
        n.tr[b].append((frozenset(CHARS), b))
    return n, n.close([a]), b


def same(p, q):
    """the patterns match the same texts (of characters 0-255, all the
    others being treated like the ones no pattern mentions)"""
    try:
        (n, s, e), (m, t, f) = automaton(p), automaton(q)
    except (NoLang, re.error):
        return False
    seen, todo = {(s, t)}, [(s, t)]
    while todo:
        x, y = todo.pop()
        if (e in x) != (f in y):
            return False
        for c in CHARS:
            u = n.close([k for i in x for cs, k in n.tr[i] if c in cs])
            v = m.close([k for i in y for cs, k in m.tr[i] if c in cs])
            if (u, v) not in seen:
                seen.add((u, v))
                todo.append((u, v))
    return True
