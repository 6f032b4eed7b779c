"""record.py: Record, Table, TableSet, find_invalid."""
from .base import *     # noqa
from pydv.interp import StarSym

Text, Val = TObj('Text'), TObj('Val')
Texts, Vals = TSeq(Text), TSeq(Val)
okf = z3.Function('castable', z3.DeclareSort('O_Field'), Text.sort(),
                  z3.BoolSort())
valf = z3.Function('casted', z3.DeclareSort('O_Field'), Text.sort(),
                   Val.sort())
msgf = z3.Function('castmsg', z3.DeclareSort('O_Field'), Text.sort(),
                   z3.StringSort())


def cast(E, f, args, kw):
    """the validator of a field: returns a value or raises a ValueError"""
    t = E.z(args[0], Text)
    if E.branch(okf(f.e, t)):
        return Sym(Val, valf(f.e, t))
    E.raise_('ValueError', Sym(TStr, msgf(f.e, t)))


Field = TObj('Field', attrs={'name': TStr}, meths={'cast': cast})
Fields = TSeq(Field)
fname = Field.attrfn('name')
ErrPair = TTup(TStr, TStr)
Errs = TSeq(ErrPair)
NT = TObj('NTuple')
mkf = z3.Function('namedtuple', Vals.sort(), NT.sort())
NTClass = TObj('NTClass', meths={
    '_make': lambda E, o, a, k: Sym(NT, mkf(E.z(a[0], Vals)))}, hooks={
        'call': lambda E, o, a, k: Sym(NT, mkf(E.z(star(E, a), Vals)))})


def star(E, args):
    """the arguments of a call f(*args)"""
    if args and isinstance(args[-1], StarSym):
        s = args[-1].seq
        if len(args) == 1:
            return s
        raise Unsupported('a call with some arguments and *args')
    return E.new_list(args)


class Rec(object):
    """a symbolic record: any number of fields, any texts"""

    def __init__(self, E, tag=''):
        self.E = E
        self.F = E.const('fields' + tag, Fields)
        self.R = E.const('row' + tag, Texts)
        E.mates.append((self.F.e, self.R))
        nth = E.nthfold(Fields)
        fs = self.F.e

        def fld(p):
            return nth(fs, E.len(Texts, p))
        self.vals = E.add_fold(Fold(
            'vals' + tag, Text, Vals, Vals.nil, lambda a, t, p: z3.If(
                okf(fld(p), t), Vals.rawsnoc(a, valf(fld(p), t)), a)))
        self.errs = E.add_fold(Fold(
            'errs' + tag, Text, Errs, Errs.nil, lambda a, t, p: z3.If(
                okf(fld(p), t), a, Errs.rawsnoc(a, ErrPair.mk(
                    fname(fld(p)), msgf(fld(p), t))))))
        self.allok = E.add_fold(Fold(
            'allok' + tag, Text, TBool, T,
            lambda a, t, p: z3.And(a, okf(fld(p), t))))

    def new(self, **attrs):
        E = self.E
        E.assume(E.len(Texts, self.R.e) == E.len(Fields, self.F.e))
        cls = E.lookup_path('record.Record')
        d = {'fields': E.new_list(self.F),
             '_ntuple': Sym(NTClass, NTClass.const('ntuple'))}
        d.update(attrs)
        # a record type with these fields
        sub = ClassV('AnyRecord', [cls], d, cls.module, cls.meta)
        return E.alloc(HInst(sub, {'row': E.new_list(self.R)}))

    def row(self, r):
        return self.E.z(self.E.h(r).attrs['row'], Texts)


def lem_errs(E, rc):
    return E.induct('no errors <=> every text is accepted', Texts,
                    lambda s: (rc.errs(s) == Errs.nil) == rc.allok(s))


def prove_error(E, rc, r, exc, name):
    h = E.h(exc)
    E.prove(name + ': is an InvalidRecord',
            h.cls is E.lookup_path('record.InvalidRecord'))
    E.prove(name + ': lists exactly the refused fields',
            E.z(h.attrs['errorlist'], Errs) == rc.errs(rc.R.e))
    E.prove(name + ': carries the record', h.attrs['record'] == r)


def t_cast(E):
    rc = Rec(E)
    lem = lem_errs(E, rc)

    def run():
        r = rc.new()
        E.assume(lem(rc.R.e))
        tup, exc = E.unpack(E.call(E.getattr(r, 'cast'), []), 2)
        ok = rc.allok(rc.R.e)
        if tup is None:
            E.prove('no tuple only if a text is refused', z3.Not(ok))
            prove_error(E, rc, r, exc, 'error of cast')
            reach(E, 'refused')
        else:
            E.prove('a tuple only if every text is accepted', ok)
            E.prove('no error with a tuple', exc is None)
            E.prove('the tuple has the converted texts in order',
                    E.z(tup, NT) == mkf(rc.vals(rc.R.e)))
            reach(E, 'accepted')
        E.prove('the record is unchanged', rc.row(r) == rc.R.e)
    return run


def t_vals(E):
    """when every text is accepted, vals has one value per field, the i-th
    being the conversion of the i-th text"""
    rc = Rec(E)
    k = z3.Const('k', z3.IntSort())
    nv, nt, nf = (E.nthfold(Vals), E.nthfold(Texts), E.nthfold(Fields))
    lem = E.induct('vals is the pointwise conversion', Texts, lambda s:
                   z3.Implies(rc.allok(s), z3.And(
                       E.len(Vals, rc.vals(s)) == E.len(Texts, s),
                       z3.Implies(z3.And(0 <= k, k < E.len(Texts, s)),
                                  nv(rc.vals(s), k) == valf(
                                      nf(rc.F.e, k), nt(s, k))))))

    def run():
        E.assume(lem(rc.R.e))
        E.assume(rc.allok(rc.R.e))
        E.assume(z3.And(0 <= k, k < E.len(Texts, rc.R.e)))
        E.prove('i-th value = conversion of the i-th text',
                nv(rc.vals(rc.R.e), k) == valf(nf(rc.F.e, k),
                                               nt(rc.R.e, k)))
        reach(E, 'end')
    return run


def t_to_tuple(E):
    rc = Rec(E)
    lem = lem_errs(E, rc)

    def run():
        r = rc.new()
        E.assume(lem(rc.R.e))
        ok = rc.allok(rc.R.e)
        try:
            tup = E.call(E.getattr(r, 'to_tuple'), [])
        except PyExc as e:
            E.prove('raises only if a text is refused', z3.Not(ok))
            prove_error(E, rc, r, e.value, 'error of to_tuple')
            reach(E, 'refused')
        else:
            E.prove('returns only if all are accepted', ok)
            E.prove('returns the tuple of cast',
                    E.z(tup, NT) == mkf(rc.vals(rc.R.e)))
            reach(E, 'accepted')
    return run


CT = TObj('Check')
CTs = TSeq(CT)
chk = z3.Function('check_passes', CT.sort(), z3.BoolSort())


def t_is_valid(E):
    rc = Rec(E)
    C = E.const('C', CTs)
    allc = E.add_fold(Fold('allchecks', CT, TBool, T,
                           lambda a, c, p: z3.And(a, chk(c))))
    # the same over the fields
    nt, nf = E.nthfold(Texts), E.nthfold(Fields)
    okfs = E.add_fold(Fold(
        'okfields', Field, TBool, T, lambda a, f, p: z3.And(a, okf(
            f, nt(rc.R.e, E.len(Fields, p))))))
    k = z3.Const('k', z3.IntSort())

    def every(s, t):
        return z3.ForAll([k], z3.Implies(
            z3.And(0 <= k, k < E.len(t, s)),
            okf(nf(s if t is Fields else rc.F.e, k),
                nt(s if t is Texts else rc.R.e, k))))
    l1 = E.induct('every text is accepted, by position', Texts,
                  lambda s: rc.allok(s) == every(s, Texts))
    l2 = E.induct('every field accepts its text, by position', Fields,
                  lambda s: okfs(s) == every(s, Fields))

    def run():
        r = rc.new(_constraints=E.new_list(C))
        E.assume(l1(rc.R.e))
        E.assume(l2(rc.F.e))
        E.prove('by field = by text', okfs(rc.F.e) == rc.allok(rc.R.e))
        E.assume(okfs(rc.F.e) == rc.allok(rc.R.e))

        def callcheck(E, c, a, k):
            E.prove('the check is applied to the record', a[0] == r)
            return Sym(TBool, chk(c.e))
        CT.hooks['call'] = callcheck
        v = E.truth_e(E.call(E.getattr(r, 'is_valid'), []))
        E.prove('valid <=> every text accepted and every check passes',
                v == z3.And(rc.allok(rc.R.e), allc(C.e)))
        reach(E, 'end')
    return run


def t_is_valid_field(E):
    rc = Rec(E)
    i = E.const('i', TInt)

    def run():
        r = rc.new()
        n = E.len(Fields, rc.F.e)
        E.assume(z3.And(0 <= i.e, i.e < n))
        v = E.truth_e(E.call(E.getattr(r, 'is_valid'), [i]))
        E.prove('field valid <=> its text is accepted', v == okf(
            E.nthfold(Fields)(rc.F.e, i.e), E.nthfold(Texts)(rc.R.e, i.e)))
        reach(E, 'end')
    return run


def t_checks(E):
    """the checks of a record type: those it was declared with and those
    added, and not those of other types"""
    def run():
        rec = E.lookup_path('record.Record')
        cast = UFun('cast', lambda E, a, k: a[0])

        def mk(name, bases, **extra):
            d = {name.lower(): E.call(E.lookup_path('record.Field'), [cast])}
            d['pkey'] = E.call(E.lookup_path('record.Unique'), [name.lower()])
            d.update(extra)
            return E.make_class(name, bases, d, rec.module)
        used = {}

        def check(n):
            passes = E.const('passes ' + n, TBool)

            def call(E, a, k):
                E.prove('the check %s gets the record' % n, len(a) == 1 and
                        not k and a[0] == used['record'])
                used[n] = True
                return passes
            return UFun(n, call), passes
        c1, p1 = check('declared')
        c2, p2 = check('added')
        c3, p3 = check('of another type')
        declared, added = E.choose(2), E.choose(2)
        A = mk('A', [rec], **({'_constraints': E.new_list([c1])}
                              if declared else {}))
        other = mk('B', [rec], _constraints=E.new_list([c3]))
        if added:
            E.call(E.getattr(A, 'add_check'), [c2])
        used['record'] = r = E.call(A, [E.const('text', TStr)])
        v = E.truth_e(E.call(E.getattr(r, 'is_valid'), []))
        E.prove('valid <=> its checks pass', v == z3.And(
            p1.e if declared else T, p2.e if added else T))
        used['record'] = r = E.call(other, [E.const('text', TStr)])
        v = E.truth_e(E.call(E.getattr(r, 'is_valid'), []))
        E.prove('checks are not shared', v == p3.e)
        reach(E, 'end')
    return run


def t_exposure(E):
    """the check of the real record type that has one"""
    def run():
        cls = E.lookup_path('records.Exposure')
        names = E.content(E.getattr(cls, 'fieldnames'))
        row = dict((n, E.const('the ' + n, TStr)) for n in names)
        row['id'] = row['category'] = 'buildings'
        for n in names:
            if n.endswith('_is_absolute'):
                row[n] = 'true'
        r = E.call(cls, [row[n] for n in names])
        v = E.truth_e(E.call(E.getattr(r, 'is_valid'), []))
        typ, unit = row['area_type'].e, row['area_unit'].e
        E.prove('the type and the unit of an area come together', v == z3.And(
            z3.Or(typ == '', typ == 'aggregated', typ == 'per_asset'),
            (typ == '') == (unit == '')))
        reach(E, 'end')
    return run


# ------------------------------------------------------------ find_invalid
RecT = TObj('Rec')
Recs = TSeq(RecT)
badf = z3.Function('uncastable', RecT.sort(), z3.BoolSort())
errf = z3.Function('errors_of', RecT.sort(), Errs.sort())


def t_find_invalid(E):
    IR = E.lookup_path('record.InvalidRecord')

    def reccast(E, o, a, k):
        """the contract of Record.cast (proved in C10)"""
        E.used_contracts.add('Record.cast')
        if E.branch(badf(o.e)):
            return (None, E.call(IR, [o, E.new_list(Sym(Errs,
                                                        errf(o.e)))]))
        return (Sym(NT, z3.Function('tuple_of', RecT.sort(), NT.sort())(
            o.e)), None)
    RecT.meths['cast'] = reccast
    S = E.const('S', Recs)
    Bad = TStruct('InvalidRecord', [('errorlist', Errs), ('fname', TNone),
                                    ('record', RecT), ('rowno', TInt)])
    Bads = TSeq(Bad)
    none = E.z(None, TNone)
    inv = E.add_fold(Fold('invalid', RecT, Bads, Bads.nil, lambda a, x, p:
                          z3.If(badf(x), Bads.rawsnoc(a, Bad.mk(
                              errorlist=errf(x), fname=none, record=x,
                              rowno=E.len(Recs, p))), a)))
    f = E.lookup_path('record.find_invalid')

    def run():
        c = E.content(E.call(f, [S]))
        E.prove('one error per uncastable record, in order, with position '
                'and errors', E.z(E.new_list(c), Bads) == inv(S.e))
        reach(E, 'end')
    return run


# ------------------------------------------------ addressing (C11)
Name = TObj('Name')


def t_getitem(E):
    """by position and by name, over any number of fields"""
    rc = Rec(E)
    i = E.const('i', TInt)
    nm = E.const('nm', TStr)
    pos = z3.Const('pos', z3.IntSort())
    N2I = TMap(TStr, TInt)
    m = E.const('name2index', N2I)

    def run():
        d = HDict(None)
        d.d = None
        d.m = m
        r = rc.new(_name2index=E.alloc(d))
        n = E.len(Fields, rc.F.e)
        E.assume(z3.And(0 <= i.e, i.e < n))
        nt = E.nthfold(Texts)
        E.prove('r[i] is the i-th text', E.z(E.getitem(r, i), Text) ==
                nt(rc.R.e, i.e))
        # a declared name
        E.assume(z3.And(z3.Select(N2I.has(m.e), nm.e),
                        z3.Select(N2I.val(m.e), nm.e) == pos,
                        0 <= pos, pos < n))
        E.prove('r[name] is the text at the position of the name',
                E.z(E.getitem(r, nm), Text) == nt(rc.R.e, pos))
        E.prove('len', E.z(E.call(E.builtins['len'], [r]), TInt) == n)
        E.prove('reading does not change the record', rc.row(r) == rc.R.e)
        reach(E, 'end')
    return run


def t_setitem(E):
    rc = Rec(E)
    i = E.const('i', TInt)
    nm = E.const('nm', TStr)
    v = E.const('v', Text)
    N2I = TMap(TStr, TInt)
    m = E.const('name2index', N2I)

    def run():
        d = HDict(None)
        d.d = None
        d.m = m
        r = rc.new(_name2index=E.alloc(d))
        n = E.len(Fields, rc.F.e)
        E.assume(z3.And(0 <= i.e, i.e < n))
        by_name = E.choose(2) == 1
        key = i
        if by_name:
            E.assume(z3.And(z3.Select(N2I.has(m.e), nm.e),
                            z3.Select(N2I.val(m.e), nm.e) == i.e))
            key = nm
        f = E.nthfold(Fields)(rc.F.e, i.e)
        # a list with the same content, updated as lists are
        l = E.new_list(rc.R)
        E.setitem(l, i, v)
        try:
            E.setitem(r, key, v)
        except PyExc as e:
            E.prove('refused with the ValueError of the validator',
                    is_exc(E, e, 'ValueError'))
            E.prove('refused only by the validator',
                    z3.Not(okf(f, v.e)))
            E.prove('a refused assignment changes nothing',
                    rc.row(r) == rc.R.e)
            reach(E, 'refused')
            return
        E.prove('accepted only by the validator', okf(f, v.e))
        E.prove('that field only is changed', rc.row(r) == E.z(l, Texts))
        reach(E, 'accepted')
    return run


def t_field_get(E):
    """the attribute of a field is the converted text"""
    t = E.const('t', Text)
    fc = E.const('f', Field)
    cls = E.lookup_path('record.Field')

    def run():
        fld = E.call(cls, [UFun('cast', lambda E, a, k: cast(E, fc, a, k))])
        E.setattr(fld, 'name', 'fieldname')
        rec = TObj('AnyRec')

        def getitem(E, o, i):
            E.prove('reads the field of its own name', i == 'fieldname')
            return t
        rec.hooks['getitem'] = getitem
        rec.hooks['notnone'] = True
        r = E.const('r', rec)
        try:
            v = E.call(E.getattr(fld, '__get__'), [r, None])
        except PyExc as e:
            E.prove('ValueError', is_exc(E, e, 'ValueError'))
            E.prove('refused', z3.Not(okf(fc.e, t.e)))
            reach(E, 'refused')
            return
        E.prove('converted', z3.And(okf(fc.e, t.e),
                                    E.z(v, Val) == valf(fc.e, t.e)))
        reach(E, 'accepted')
    return run


def t_eq(E):
    rc1, rc2 = Rec(E, '1'), Rec(E, '2')

    def run():
        a, b = rc1.new(), rc2.new()
        eq = E.truth_e(E.call(E.getattr(a, '__eq__'), [b]))
        E.prove('equal texts give equality', z3.Implies(
            rc1.R.e == rc2.R.e, eq))
        E.prove('equality means equal texts', z3.Implies(
            eq, rc1.R.e == rc2.R.e))
        ne = E.truth_e(E.call(E.getattr(a, '__ne__'), [b]))
        E.prove('!= is the negation', ne == z3.Not(eq))
        reach(E, 'end')
    return run


def mkclass(E, name, order, decl, base=None, extra=()):
    """a record type whose fields are declared in the order `decl` and
    stored in the class dictionary in the order `order`"""
    fieldc = E.lookup_path('record.Field')
    uniq = E.lookup_path('record.Unique')
    flds = {}
    for n in decl:
        flds[n] = E.call(fieldc, [UFun('cast_' + n, lambda E, a, k, n=n: Sym(
            Val, z3.Function('cast_' + n, Text.sort(), Val.sort())(
                E.z(a[0], Text))))])
    d = dict((n, flds[n]) for n in order)
    d['pkey'] = E.call(uniq, [decl[0]])
    for k, v in extra:
        d[k] = v
    rec = E.lookup_path('record.Record')
    return E.make_class(name, [base or rec], d, rec.module)


def t_class(E):
    """bounded: record types of 1 to 4 fields"""
    def run():
        shapes = [('a',), ('b', 'a'), ('b', 'c', 'a'), ('d', 'b', 'a', 'c')]
        decl = shapes[E.choose(4)]
        order = decl if E.choose(2) else tuple(reversed(decl))
        names = list(decl)
        cls = mkclass(E, 'R', order, decl)
        if E.choose(2):
            sub = ('y', 'x') if E.choose(2) else ('x',)
            cls = mkclass(E, 'S', sub, sub, cls)
            names += list(sub)
        got = [E.getattr(f, 'name') for f in
               E.content(E.getattr(cls, 'fields'))]
        E.prove('fields in the order of declaration, inherited first',
                got == names)
        E.prove('fieldnames', E.content(E.getattr(cls, 'fieldnames')) ==
                names)
        npos = E.choose(len(names) + 1)
        ts = [E.const('t%d' % k, Text) for k in range(len(names))]
        kw, want = {}, list(ts)
        for k in range(npos, len(names)):
            if (k - npos) % 2:
                kw[names[k]] = ts[k]
            else:
                want[k] = ''
        r = E.call(cls, ts[:npos], kw)
        for k, n in enumerate(names):
            for key in (k, n):
                E.prove('argument read back by position and name',
                        E.eq(E.getitem(r, key), want[k]))
            if want[k] != '':
                E.prove('attribute = converted text',
                        E.z(E.getattr(r, n), Val) == z3.Function(
                            'cast_' + n, Text.sort(), Val.sort())(ts[k].e))
        E.prove('length', E.call(E.builtins['len'], [r]) == len(names))
        reach(E, 'end')
    return run



# ------------------------------------------------------ tables (C12)
KeyT = TObj('Key', hooks={'iter': lambda E, o: Sym(Texts, z3.Function(
    'key_texts', KeyT.sort(), Texts.sort())(o.e))})
UNAMES = ['pkey', 'u', 'w']
Row = TObj('TRec', attrs=dict((n, KeyT) for n in UNAMES))
Rows = TSeq(Row)
Index = TMap(KeyT, Row)


class Tab(object):
    """a symbolic table satisfying the invariant: any number of records,
    n unique constraints"""

    def __init__(self, E, n):
        self.E, self.names = E, UNAMES[:n]
        self.R = E.const('records', Rows)
        self.k0 = z3.Const('k0', KeyT.sort())
        self.v0 = z3.Const('v0', Row.sort())
        self.mem = E.add_fold(Fold(
            'member', Row, TBool, F, lambda a, x, p, v: z3.Or(a, x == v),
            params=[Row], hom=lambda a, b: z3.Or(a, b)))
        self.cnt, self.m = {}, {}
        for u in self.names:
            key = Row.attrfn(u)
            self.cnt[u] = E.add_fold(Fold(
                'count_' + u, Row, TInt, z3.IntVal(0),
                lambda a, x, p, k, key=key: a + z3.If(key(x) == k, 1, 0),
                params=[KeyT], hom=lambda a, b: a + b))
            self.m[u] = E.const('index_' + u, Index)
        kk = z3.Const('kk', KeyT.sort())
        self.nonneg = E.induct('counts are not negative', Rows, lambda s:
                               z3.ForAll([kk], z3.And([
                                   self.cnt[u](s, kk) >= 0
                                   for u in self.names])))

    def inv(self, u, s, m, k):
        """the index holds exactly the stored record of the key k, and at
        most one record has that key"""
        key = Row.attrfn(u)
        has, val = (z3.Select(Index.has(m), k), z3.Select(Index.val(m), k))
        c = self.cnt[u](s, k)
        return z3.And(0 <= c, c <= 1, has == (c == 1), z3.Implies(
            has, z3.And(key(val) == k, z3.Implies(
                val == self.v0, self.mem(s, self.v0)))))

    def rectype(self):
        """a record type with the given unique constraints"""
        E = self.E
        unique = E.lookup_path('record.Unique')
        uqs = [E.alloc(HInst(unique, {
            'name': u, 'recordtype': None, 'names': E.new_list(
                E.const('names_' + u, TSeq(TStr)))})) for u in self.names]

        def descriptors(E, o, a, k):
            E.prove('the unique constraints are asked for', a[0] == unique)
            return E.new_list(uqs)
        rt = TObj('RecordType', attrs={'__name__': TStr}, meths={
            'get_descriptors': descriptors})
        return E.const('rt', rt)

    def create(self, records):
        """a table built by the constructor; the places of its state are
        found by what they hold, not by name"""
        E = self.E
        unique = E.lookup_path('record.Unique')
        self.tab = E.call(E.lookup_path('record.Table'),
                          [self.rectype(), E.new_list(records)])
        self.where = dict((u, []) for u in self.names)
        seen = set()

        def visit(v):
            if not isinstance(v, Ref) or v in seen:
                return
            seen.add(v)
            h = E.h(v)
            if isinstance(h, HInst):
                name = [E.h(x).attrs['name'] for x in h.attrs.values()
                        if isinstance(x, Ref) and isinstance(
                            E.h(x), HInst) and E.h(x).cls == unique]
                if name:
                    self.where[name[0]] += [
                        (v, a) for a, x in h.attrs.items()
                        if isinstance(x, Ref) and isinstance(
                            E.h(x), HDict)]
                for x in h.attrs.values():
                    visit(x)
            elif isinstance(h, HDict) and h.d:
                for x in h.d.values():
                    visit(x)
        visit(self.tab)
        for u in self.names:
            assert len(self.where[u]) == 1, 'index of %s not found' % u
        self.recs = [a for a, x in E.h(self.tab).attrs.items()
                     if isinstance(x, Ref) and isinstance(E.h(x), HList)]
        assert len(self.recs) == 1, 'records not found'
        return self.tab

    def new(self):
        """any table satisfying the invariant"""
        E = self.E
        tab = self.create([])
        for u in self.names:
            E.prove('empty table: the invariant of %s' % u,
                    self.inv(u, Rows.nil, self.index(u), self.k0))
            d = HDict(None)
            d.d, d.m = None, self.m[u]
            (r, a), = self.where[u]
            E.h(r).attrs[a] = E.alloc(d)
        E.h(tab).attrs[self.recs[0]] = E.new_list(self.R)
        return tab

    def assume_inv(self, *keys):
        for u in self.names:
            for k in (self.k0,) + keys:
                self.E.assume(self.inv(u, self.R.e, self.m[u].e, k))

    def split(self, i, *keys):
        """records = before ++ [old] ++ after: the counts add up"""
        E = self.E
        a, old, b = E.split_at(Rows, self.R.e, i.e)
        whole = E.cat(Rows, Rows.rawsnoc(a, old), b)
        for u in self.names:
            for k in keys + (self.k0, Row.attrfn(u)(old)):
                E.assume(self.cnt[u](self.R.e, k) == self.cnt[u](whole, k))
        E.assume(self.mem(self.R.e, self.v0) == self.mem(whole, self.v0))
        E.assume(z3.And(self.nonneg(a), self.nonneg(b)))

    def split2(self, i):
        """records = before ++ after"""
        E = self.E
        a, b = E.split_at(Rows, self.R.e, i.e, False)
        whole = E.cat(Rows, a, b)
        for u in self.names:
            E.assume(self.cnt[u](self.R.e, self.k0) ==
                     self.cnt[u](whole, self.k0))
        E.assume(self.mem(self.R.e, self.v0) == self.mem(whole, self.v0))
        E.assume(z3.And(self.nonneg(a), self.nonneg(b)))

    def records(self):
        return self.E.z(self.E.h(self.tab).attrs[self.recs[0]], Rows)

    def index(self, u):
        E = self.E
        (r, a), = self.where[u]
        return E.z(E.h(r).attrs[a], Index)

    def prove_inv(self, when):
        for u in self.names:
            self.E.prove('%s: the invariant of %s holds' % (when, u),
                         self.inv(u, self.records(), self.index(u), self.k0))

    def prove_same(self, when):
        E = self.E
        E.prove(when + ': the records are as before',
                self.records() == self.R.e)
        for u in self.names:
            E.prove('%s: the lookups of %s are as before' % (when, u), z3.And(
                z3.Select(Index.has(self.index(u)), self.k0) ==
                z3.Select(Index.has(self.m[u].e), self.k0),
                z3.Implies(z3.Select(Index.has(self.m[u].e), self.k0),
                           z3.Select(Index.val(self.index(u)), self.k0) ==
                           z3.Select(Index.val(self.m[u].e), self.k0))))

    def taken(self, x):
        """some constraint already has the key of x"""
        return z3.Or(*[z3.Select(Index.has(self.m[u].e), Row.attrfn(u)(x))
                       for u in self.names])


def t_insert(n, append):
    def t(E):
        tb = Tab(E, n)
        x = E.const('x', Row)
        i = E.const('i', TInt)

        def run():
            tab = tb.new()
            tb.assume_inv(*[Row.attrfn(u)(x.e) for u in tb.names])
            l = E.new_list(tb.R)
            if append:
                E.call(E.getattr(l, 'append'), [x])
            else:
                E.assume(z3.And(0 <= i.e, i.e <= E.len(Rows, tb.R.e)))
                tb.split2(i)
                E.call(E.getattr(l, 'insert'), [i, x])
            try:
                if append:
                    E.call(E.getattr(tab, 'append'), [x])
                else:
                    E.call(E.getattr(tab, 'insert'), [i, x])
            except PyExc as e:
                E.prove('refused with a KeyError', is_exc(E, e, 'KeyError'))
                E.prove('refused only if a key is taken', tb.taken(x.e))
                tb.prove_same('refused')
                reach(E, 'refused')
                return
            E.prove('accepted only if no key is taken',
                    z3.Not(tb.taken(x.e)))
            E.prove('stored at the position asked for',
                    tb.records() == E.z(l, Rows))
            tb.prove_inv('accepted')
            reach(E, 'accepted')
        return run
    return t


def t_table_setitem(n):
    def t(E):
        tb = Tab(E, n)
        x = E.const('x', Row)
        i = E.const('i', TInt)

        def run():
            tab = tb.new()
            E.assume(z3.And(0 <= i.e, i.e < E.len(Rows, tb.R.e)))
            old = E.nthfold(Rows)(tb.R.e, i.e)
            tb.assume_inv(*([Row.attrfn(u)(x.e) for u in tb.names] +
                            [Row.attrfn(u)(old) for u in tb.names]))
            tb.split(i, *[Row.attrfn(u)(x.e) for u in tb.names])
            l = E.new_list(tb.R)
            E.setitem(l, i, x)
            clash = z3.Or(*[z3.And(
                Row.attrfn(u)(x.e) != Row.attrfn(u)(old),
                z3.Select(Index.has(tb.m[u].e), Row.attrfn(u)(x.e)))
                for u in tb.names])
            try:
                E.setitem(tab, i, x)
            except PyExc as e:
                E.prove('refused with a KeyError', is_exc(E, e, 'KeyError'))
                E.prove('refused only if another record has a key', clash)
                tb.prove_same('refused')
                reach(E, 'refused')
                return
            E.prove('accepted only if no other record has a key',
                    z3.Not(clash))
            E.prove('replaced at the position asked for',
                    tb.records() == E.z(l, Rows))
            tb.prove_inv('accepted')
            reach(E, 'accepted')
        return run
    return t


def t_table_delitem(n):
    def t(E):
        tb = Tab(E, n)
        i = E.const('i', TInt)

        def run():
            tab = tb.new()
            E.assume(z3.And(0 <= i.e, i.e < E.len(Rows, tb.R.e)))
            old = E.nthfold(Rows)(tb.R.e, i.e)
            tb.assume_inv(*[Row.attrfn(u)(old) for u in tb.names])
            tb.split(i)
            l = E.new_list(tb.R)
            E.delitem(l, i)
            E.delitem(tab, i)
            E.prove('that record only is deleted',
                    tb.records() == E.z(l, Rows))
            tb.prove_inv('deleted')
            reach(E, 'end')
        return run
    return t


def t_getrecord(E):
    """lookups by primary key, in a table satisfying the invariant"""
    tb = Tab(E, 2)
    KT = [E.const('kt%d' % j, TStr) for j in range(2)]

    def run():
        tab = tb.new()
        # the primary key as a tuple of two texts
        K2 = TTup(TStr, TStr)
        I2 = TMap(K2, Row)
        m = E.const('index2', I2)
        d = HDict(None)
        d.d, d.m = None, m
        (r, a), = tb.where['pkey']
        E.h(r).attrs[a] = E.alloc(d)
        k = K2.mk(KT[0].e, KT[1].e)
        has = z3.Select(I2.has(m.e), k)
        try:
            v = E.call(E.getattr(tab, 'getrecord'), KT)
        except PyExc as e:
            E.prove('KeyError', is_exc(E, e, 'KeyError'))
            E.prove('raised only if there is no such key', z3.Not(has))
            reach(E, 'missing')
            return
        E.prove('found only if there', has)
        E.prove('the record of the index', E.z(v, Row) ==
                z3.Select(I2.val(m.e), k))
        reach(E, 'found')
    return run


def t_table_init(n):
    """construction from any records"""
    def t(E):
        tb = Tab(E, n)
        X = E.const('X', Rows)
        idx = {}
        for u in tb.names:
            key = Row.attrfn(u)
            idx[u] = E.add_fold(Fold(
                'index_of_' + u, Row, Index,
                Index.mk(z3.K(KeyT.sort(), F), z3.K(
                    KeyT.sort(), E.default_of(Row))),
                lambda a, x, p, key=key: Index.mk(
                    z3.Store(Index.has(a), key(x), T),
                    z3.Store(Index.val(a), key(x), x))))
        ok = E.add_fold(Fold(
            'no_duplicates', Row, TBool, T, lambda a, x, p: z3.And(
                a, *[z3.Not(z3.Select(Index.has(idx[u](p)),
                                      Row.attrfn(u)(x)))
                     for u in tb.names])))
        kk = z3.Const('kk', KeyT.sort())
        lem = E.induct('the index of records without duplicates', Rows,
                       lambda s: z3.Implies(ok(s), z3.And(*[z3.ForAll(
                           [kk], tb.inv(u, s, idx[u](s), kk))
                           for u in tb.names])))

        def run():
            try:
                tb.create(X)
            except PyExc as e:
                E.prove('refused with a KeyError', is_exc(E, e, 'KeyError'))
                E.prove('refused only with duplicates', z3.Not(ok(X.e)))
                reach(E, 'refused')
                return
            E.prove('accepted only without duplicates', ok(X.e))
            E.prove('holds the records in order', tb.records() == X.e)
            E.assume(lem(X.e))
            tb.prove_inv('accepted')
            reach(E, 'accepted')
        return run
    return t


def t_unique_get(E):
    rc = Rec(E)
    nm = [E.const('n%d' % j, TStr) for j in range(3)]
    cls = E.lookup_path('record.Unique')
    fk = E.lookup_path('record.ForeignKey')

    def run():
        which = E.choose(2)
        k = E.choose(3) + 1
        for a in range(k):
            for b in range(a):
                E.assume(nm[a].e != nm[b].e)
        rec = TObj('AnyRec2')
        item = z3.Function('item', rec.sort(), z3.StringSort(), Text.sort())
        rec.hooks['getitem'] = lambda E, o, i: Sym(Text, item(
            o.e, E.z(i, TStr)))
        rec.hooks['notnone'] = True
        r = E.const('r', rec)
        d = E.call(cls, nm[:k]) if which else E.call(fk, [None] + nm[:k])
        v = E.call(E.getattr(d, '__get__'), [r, None])
        got = E.content(v)
        E.prove('as many values as names', len(got) == k)
        for j in range(k):
            E.prove('the values of the fields in order', E.z(got[j], Text) ==
                    item(r.e, nm[j].e))
        E.prove('from the class, the constraint itself', E.call(
            E.getattr(d, '__get__'), [None, None]) == d)
        reach(E, 'end')
    return run

# ------------------------------------------------------ table sets (C13)
FKT, RecX, Key13 = TObj('FK', attrs={'name': TStr}), TObj('RecX'), \
    TObj('Key13')
FKTs, RecXs = TSeq(FKT), TSeq(RecX)
refdict = TMap(Key13, RecX)
fkkey = z3.Function('fk_values', RecX.sort(), z3.StringSort(), Key13.sort())


def mk_tableset(E):
    """a table set with symbolic foreign keys and tables A and B; returns
    (table set, sets of keys of the referenced tables by fkey)"""
    UD = TObj('UData', attrs={'dict': refdict})
    FD = TMap(FKT, UD)
    fkd = E.const('fkdict', FD)
    fks = E.const('fks', FKTs)
    fkcls = E.lookup_path('record.ForeignKey')
    x = E.const('x', RecX)

    def descriptors(E, o, a, k):
        E.prove('the foreign keys are asked for', a[0] == fkcls)
        return E.new_list(fks)
    rcls = TObj('RecXClass', meths={'get_descriptors': descriptors},
                attrs={'__name__': lambda E, o: 'A'})
    RecX.attrs['__class__'] = lambda E, o: Sym(rcls, rcls.const('A'))
    RecX.hooks['type'] = lambda E, o: Sym(rcls, rcls.const('A'))
    RecX.hooks['getattr_sym'] = lambda E, o, a: Sym(Key13, fkkey(
        o.e, E.z(a, TStr)))
    tgt = TObj('Target', attrs={'recordtype': TObj('TargetType', attrs={
        '__name__': TStr}), 'name': TStr})
    FKT.attrs['unique'] = tgt
    stored = lambda f, r: z3.Select(refdict.has(UD.attrfn('dict')(
        z3.Select(FD.val(fkd.e), f))), fkkey(r, FKT.attrfn('name')(f)))
    allfk = E.add_fold(Fold('all_referenced', FKT, TBool, T,
                            lambda a, f, p: z3.And(a, stored(f, x.e))))
    known = E.add_fold(Fold('all_known', FKT, TBool, T, lambda a, f, p:
                            z3.And(a, z3.Select(FD.has(fkd.e), f))))
    RA, RB = E.const('RA', RecXs), E.const('RB', RecXs)

    def new():
        ct = TObj('Converter', attrs={'__name__': TStr}, meths={
            'recordtypes': lambda E, o, a, k: E.new_list([])})
        ts = E.call(E.lookup_path('record.TableSet'), [E.const('ct', ct)])
        empty = [a for a, v in E.h(ts).attrs.items() if isinstance(v, Ref)
                 and isinstance(E.h(v), HDict)]
        assert len(empty) == 1, 'no place for the foreign keys'
        d = HDict(None)
        d.d, d.m = None, fkd
        E.setattr(ts, empty[0], E.alloc(d))
        a, b = E.new_list(RA), E.new_list(RB)
        E.setattr(ts, 'tableA', a)
        E.setattr(ts, 'tableB', b)
        return ts, a, b
    return new, x, fks, allfk, known, RA, RB


def t_fk_insert(E):
    new, x, fks, allfk, known, RA, RB = mk_tableset(E)

    def run():
        ts, a, b = new()
        E.assume(known(fks.e))
        try:
            E.call(E.getattr(ts, 'insert'), [x])
        except PyExc as e:
            E.prove('refused with a ForeignKeyError',
                    exc_is(E, e, 'record.ForeignKeyError'))
            E.prove('refused only if a referenced record is missing',
                    z3.Not(allfk(fks.e)))
            E.prove('nothing changes', z3.And(E.z(a, RecXs) == RA.e,
                                              E.z(b, RecXs) == RB.e))
            reach(E, 'refused')
            return
        E.prove('accepted only if all referenced records are there',
                allfk(fks.e))
        E.prove('at the end of the table of its type',
                E.z(a, RecXs) == RecXs.rawsnoc(RA.e, x.e))
        E.prove('no other table changes', E.z(b, RecXs) == RB.e)
        reach(E, 'accepted')
    return run


def t_insert_all(E):
    """in order, one by one, stopping at the first refused record; against
    the contract of insert (it may refuse, depending on the history)"""
    X = E.const('X', RecXs)
    H = E.const('H', RecXs)
    refuse = z3.Function('refused_after', RecXs.sort(), RecX.sort(),
                         z3.BoolSort())
    okall = E.add_fold(Fold('none_refused', RecX, TBool, T, lambda a, x, p:
                            z3.And(a, z3.Not(refuse(E.cat(RecXs, H.e, p),
                                                    x)))))

    def run():
        ct = TObj('Converter', attrs={'__name__': TStr}, meths={
            'recordtypes': lambda E, o, a, k: E.new_list([])})
        ts = E.call(E.lookup_path('record.TableSet'), [E.const('ct', ct)])
        hist = E.new_list(H)

        def insert(E, args, kw):
            E.used_contracts.add('TableSet.insert')
            if E.branch(refuse(E.z(hist, RecXs), E.z(args[1], RecX))):
                raise PyExc(E.call(E.lookup_path('record.ForeignKeyError'),
                                   []))
            E.call(E.getattr(hist, 'append'), [args[1]])
        E.contracts['record.TableSet.insert'] = insert
        try:
            E.call(E.getattr(ts, 'insert_all'), [X])
        except PyExc as e:
            E.prove('the error of insert',
                    exc_is(E, e, 'record.ForeignKeyError'))
            E.prove('only if some record is refused', z3.Not(okall(X.e)))
            reach(E, 'refused')
            return
        E.prove('all accepted', okall(X.e))
        E.prove('inserted one by one, in order', E.z(hist, RecXs) ==
                E.cat(RecXs, H.e, X.e))
        reach(E, 'accepted')
    return run


def t_wiring(E):
    """bounded: real record types, tables and histories of 4 insertions
    with symbolic texts"""
    def run():
        fk = E.lookup_path('record.ForeignKey')
        fieldc = E.lookup_path('record.Field')
        uniq = E.lookup_path('record.Unique')
        rec = E.lookup_path('record.Record')

        def fld(n):
            return E.call(fieldc, [UFun('cast', lambda E, a, k: a[0])])

        def mk(name, fields, **extra):
            d = dict((n, fld(n)) for n in fields)
            d.update(extra)
            d.setdefault('pkey', E.call(uniq, fields[:1]))
            return E.make_class(name, [rec], d, rec.module)
        A = mk('A', ['a', 'k'], alt=E.call(uniq, ['k']))
        B = mk('B', ['b', 'ref'], fk=E.call(fk, [E.getattr(A, 'pkey'),
                                                 'ref']))
        C = mk('C', ['c', 'r1', 'r2'],
               fk1=E.call(fk, [E.getattr(A, 'alt'), 'r1']),
               fk2=E.call(fk, [E.getattr(B, 'pkey'), 'r2']))
        types = [A, B, C]
        conv = TObj('Conv', attrs={'__name__': TStr}, meths={
            'recordtypes': lambda E, o, a, k: E.new_list(types)})
        ts = E.call(E.lookup_path('record.TableSet'), [E.const('cv', conv)])
        t = [E.const('t%d' % i, TStr) for i in range(9)]
        # A(t0,t1), then B or C
        a = E.call(A, t[0:2])
        b = E.call(B, t[2:4])
        c = E.call(C, t[4:7])
        E.call(E.getattr(ts, 'insert'), [a])
        okb = t[3].e == t[0].e

        def insert(r, ok, mark):
            try:
                E.call(E.getattr(ts, 'insert'), [r])
            except PyExc as e:
                E.prove(mark + ' refused with a ForeignKeyError',
                        exc_is(E, e, 'record.ForeignKeyError'))
                E.prove(mark + ' refused only as an orphan', z3.Not(ok))
                reach(E, mark + ' refused')
                return False
            E.prove(mark + ' accepted only with its companions', ok)
            reach(E, mark + ' accepted')
            return True
        first = E.choose(2)
        if first:
            insert(c, F, 'C before B')
        inb = insert(b, okb, 'B')
        okc = z3.And(t[5].e == t[1].e, t[6].e == t[2].e) if inb else F
        inc = insert(c, okc, 'C')
        for ty, want in ((A, [a]), (B, [b] if inb else []),
                         (C, [c] if inc else [])):
            tab = E.getattr(ts, 'table' + ty.name)
            E.prove('table ' + ty.name, E.content(tab) == want)
        E.prove('as many tables as types', E.call(
            E.builtins['len'], [ts]) == 3)
    return run


G = ['record']
TASKS = {
    'C10': [Task('cast', t_cast, G, covers=['accepted', 'refused']),
            Task('values', t_vals, G, covers=['end']),
            Task('to_tuple', t_to_tuple, G, covers=['accepted', 'refused']),
            Task('is_valid', t_is_valid, G, covers=['end']),
            Task('checks of a type', t_checks, G, covers=['end']),
            Task('checks of exposures', t_exposure, G + ['records', 'valid'],
                 covers=['end']),
            Task('is_valid of a field', t_is_valid_field, G,
                 covers=['end'])],
    'C11': [Task('getitem', t_getitem, G, covers=['end']),
            Task('setitem', t_setitem, G, covers=['accepted', 'refused']),
            Task('attribute', t_field_get, G,
                 covers=['accepted', 'refused']),
            Task('equality', t_eq, G, covers=['end']),
            Task('record types of 1 to 6 fields (bounded)', t_class, G,
                 covers=['end'])],
    'C12': [Task(name % n, f(n), G, covers=cov) for n in (1, 2, 3)
            for name, f, cov in [
                ('insert, %d constraints', lambda n: t_insert(n, False),
                 ['accepted', 'refused']),
                ('append, %d constraints', lambda n: t_insert(n, True),
                 ['accepted', 'refused']),
                ('setitem, %d constraints', t_table_setitem,
                 ['accepted', 'refused']),
                ('delitem, %d constraints', t_table_delitem, ['end']),
                ('constructor, %d constraints', t_table_init,
                 ['accepted', 'refused'])]] + [
            Task('getrecord', t_getrecord, G, covers=['found', 'missing']),
            Task('key of a record', t_unique_get, G, covers=['end'])],
    'C13': [Task('insert', t_fk_insert, G, covers=['accepted', 'refused']),
            Task('insert_all', t_insert_all, G,
                 covers=['accepted', 'refused']),
            Task('real record types (bounded)', t_wiring, G,
                 covers=['B accepted', 'B refused', 'C accepted',
                         'C refused', 'C before B refused'])],
    'C14': [Task('find_invalid', t_find_invalid, G, covers=['end'])],
}
