"""Records, tables and table sets."""
import itertools
from run import raises
from openquake.commonlib import record as R
from openquake.commonlib import valid as V


def upper(text):
    if text != text.upper():
        raise ValueError('%r is not upper case' % text)
    return ('UP', text)


def mute(text):
    if text.startswith('x'):
        raise ValueError
    return text


class OddError(ValueError):
    pass


def zero(text):
    if text == '1':
        raise OddError(0)
    return None


def boom(text):
    raise ValueError('always refused: %s' % text)


CASTS = [(int, ['1', '-3', '0'], ['', 'x', '1.5']),
         (float, ['1.5', '2', '-0.25'], ['', 'abc']),
         (V.name, ['a', 'b_1'], ['', '1a', 'a b']),
         (upper, ['A', '', 'B2'], ['a', 'bC']),
         (boom, [], ['', 'x']), (mute, ['', 'a'], ['x', 'xx']),
         (zero, ['', '0'], ['1']),
         (V.NoneOr(V.positivefloat), ['', '1.5', '0'], ['-1', 'x']),
         (str, ['', 'any', 'other'], [])]
NAMES = ['zeta', 'alpha', 'mid', 'beta', 'omega', 'id', 'f1', 'f2', 'aa']


def mktype(r, name='Rec', nfields=None, base=None, pk=None):
    """a random record type; returns (type, [(field name, cast, ok, bad)])"""
    n = nfields or r.randrange(1, 6)
    used = [s[0] for s in base[1]] if base else []
    names = r.sample([x for x in NAMES if x not in used],
                     min(n, len(NAMES) - len(used)))
    specs = [(nm,) + r.choice(CASTS) for nm in names]
    dic = {}
    for nm, cast, ok, bad in specs:
        dic[nm] = R.Field(cast)
    allspecs = (list(base[1]) if base else []) + specs
    dic['pkey'] = R.Unique(*(pk or [allspecs[0][0]]))
    bases = (base[0],) if base else (R.Record,)
    return R.MetaRecord(name, bases, dic), allspecs


def texts(r, specs, pbad=.3):
    out = []
    for nm, cast, ok, bad in specs:
        pool = bad if (r.random() < pbad and bad) or not ok else ok
        out.append(r.choice(pool))
    return out


def errors_of(specs, row):
    vals, errs = [], []
    for (nm, cast, ok, bad), t in zip(specs, row):
        try:
            vals.append(cast(t))
        except ValueError as e:
            errs.append((nm, str(e)))
    return vals, errs


def C10(ctx):
    ctx.rule = ('random record types of 1..9 fields with custom casts, '
                'inheritance and checks; random texts, valid and not')
    r = ctx.rng
    for trial in range(ctx.n(1200, 12000)):
        if not ctx.time_left():
            break
        base = mktype(r, 'Base') if r.random() < .3 else None
        rt, specs = mktype(r, 'Sub', base=base)
        checks = []
        if r.random() < .3:
            # declared with the type
            v = r.choice([True, False])
            checks.append((0, v))
            rt = R.MetaRecord('Checked', (R.Record,), dict(
                [(s[0], R.Field(s[1])) for s in specs],
                pkey=R.Unique(specs[0][0]),
                _constraints=[lambda rec, v=v: v]))
            order = dict((s[0], s) for s in specs)
            specs = [order[f.name] for f in rt.fields]
        for _ in range(r.randrange(3)):
            k, v = r.randrange(len(specs)), r.choice([True, True, False])
            checks.append((k, v))
            # a check that uses the casted record only when all are valid
            rt.add_check(lambda rec, v=v: v)
        for _ in range(3):
            row = texts(r, specs, r.choice([0, .1, .5]))
            inp = ([(s[0], getattr(s[1], '__name__', str(s[1])))
                    for s in specs], row, checks)

            def f():
                rec = rt(*row)
                vals, errs = errors_of(specs, row)
                tup, exc = rec.cast()
                if errs:
                    if tup is not None:
                        return 'a tuple %r together with errors' % (tup,)
                    if not isinstance(exc, R.InvalidRecord):
                        return 'error is %r' % (exc,)
                    if exc.errorlist != errs or exc.record is not rec:
                        return 'errors %r, expected %r' % (
                            exc.errorlist, errs)
                    try:
                        rec.to_tuple()
                    except R.InvalidRecord as e:
                        if e.errorlist != errs:
                            return 'to_tuple: %r' % e.errorlist
                    else:
                        return 'to_tuple did not raise'
                else:
                    if exc is not None:
                        return 'error %r for a valid record' % exc
                    if list(tup) != vals or map(type, tup) != map(
                            type, vals):
                        return 'tuple %r, expected %r' % (tup, vals)
                    if tup._fields != tuple(s[0] for s in specs):
                        return 'fields %r' % (tup._fields,)
                    if rec.to_tuple() != tup:
                        return 'to_tuple differs'
                want = not errs and all(v for _, v in checks)
                if rec.is_valid() is not want:
                    return 'is_valid %r, expected %r' % (
                        rec.is_valid(), want)
                bad = set(n for n, _ in errs)
                for i, s in enumerate(specs):
                    for key in (i, s[0]):
                        if rec.is_valid(key) is not (s[0] not in bad):
                            return 'is_valid(%r)' % (key,)
                if list(rec) != row:
                    return 'the record was changed'
            ctx.check('cast/is_valid/to_tuple', inp, f)

    # the real record type with a check
    from openquake.commonlib import records
    for typ in ['', 'aggregated', 'per_asset', 'x']:
        for unit in ['', 'square meters', '0']:
            def exposure():
                rec = records.Exposure('e', 'buildings', '', 'd', typ, unit,
                                       'true', '')
                want = typ != 'x' and (typ == '') == (unit == '')
                if rec.is_valid() is not want:
                    return 'is_valid: %r' % rec.is_valid()
            ctx.check('area of an exposure', (typ, unit), exposure)

    # the checks of one type do not leak into another
    def leak():
        a, sa = mktype(r, 'A1', 1)
        b, sb = mktype(r, 'B1', 1)
        a.add_check(lambda rec: False)
        for t, s, want in ((a, sa, False), (b, sb, True)):
            if s[0][2] and t(s[0][2][0]).is_valid() is not want:
                return 'check of another type was used'
    for _ in range(10):
        ctx.check('checks belong to their type', '', leak)


def C11(ctx):
    ctx.rule = 'random record types, positional and keyword constructors'
    r = ctx.rng
    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        base = mktype(r, 'Base') if r.random() < .4 else None
        base2 = None
        rt, specs = mktype(r, 'Sub', base=base)
        names = [s[0] for s in specs]
        row = texts(r, specs, r.choice([0, .3]))
        npos = r.randrange(len(row) + 1)
        kws = dict((n, v) for n, v in zip(names, row)[npos:]
                   if r.random() < .7)
        full = row[:npos] + [kws.get(n, '') for n in names[npos:]]
        i = r.randrange(len(names))
        newval = r.choice(specs[i][2] + specs[i][3])
        inp = (names, row[:npos], kws, i, newval)

        def f():
            if rt.fieldnames != names:
                return 'fieldnames %r, expected %r' % (rt.fieldnames, names)
            if len(rt) != len(names):
                return 'length of the type'
            rec = rt(*row[:npos], **kws)
            if list(rec) != full or len(rec) != len(full):
                return 'row %r, expected %r' % (list(rec), full)
            for k, n in enumerate(names):
                if rec[k] != full[k] or rec[n] != full[k]:
                    return 'field %s reads %r/%r, expected %r' % (
                        n, rec[k], rec[n], full[k])
                try:
                    want = specs[k][1](full[k])
                except ValueError as e:
                    try:
                        got = getattr(rec, n)
                    except ValueError as e2:
                        if str(e2) != str(e):
                            return 'message of attribute ' + n
                    else:
                        return 'attribute %s is %r' % (n, got)
                else:
                    if getattr(rec, n) != want:
                        return 'attribute %s is %r, expected %r' % (
                            n, getattr(rec, n), want)
            for key in (i, names[i]):
                rec = rt(*full)
                try:
                    specs[i][1](newval)
                except ValueError as e:
                    try:
                        rec[key] = newval
                    except ValueError as e2:
                        if str(e2) != str(e):
                            return 'message %s' % e2
                    else:
                        return 'assigned an invalid text'
                    if list(rec) != full:
                        return 'refused assignment changed the record'
                else:
                    rec[key] = newval
                    want = full[:i] + [newval] + full[i + 1:]
                    if list(rec) != want:
                        return 'after assignment %r, expected %r' % (
                            list(rec), want)
        ctx.check('addressing', inp, f)
        other = list(full)
        c = r.random()
        if c < .3:
            other[i] = newval
        elif c < .4:
            other.append('')
        elif c < .5:
            other.pop()

        def eq():
            a = rt(*full)
            b = rt(*other) if len(other) == len(full) else other
            want = full == other
            if (a == b) is not want or (a != b) is want:
                return '== %r, != %r, expected %r' % (a == b, a != b, want)
        ctx.check('equality', (full, other), eq)


def ktype(r, name='K'):
    """a type of 3..4 text fields with pkey and another unique"""
    n = r.choice([3, 4])
    names = ['a', 'b', 'c', 'd'][:n]
    dic = dict((nm, R.Field(str)) for nm in names)
    pk = r.sample(names, r.choice([1, 1, 2]))
    dic['pkey'] = R.Unique(*pk)
    uniq = [('pkey', pk)]
    if r.random() < .7:
        u = r.sample(names, r.choice([1, 2]))
        dic['zuniq' if r.random() < .5 else 'auniq'] = R.Unique(*u)
        uniq.append(('u', u))
    fields = sorted(dic, key=lambda k: getattr(dic[k], 'ordinal', -1))
    fields = [f for f in fields if f in names]
    return R.MetaRecord(name, (R.Record,), dic), fields, uniq


def C12(ctx):
    ctx.rule = ('random histories of insert/append/replace/delete on tables '
                'with one or two unique constraints over a small key space')
    r = ctx.rng

    def state_ok(tbl, model, fields, uniq, rt, keys):
        if [id(x) for x in tbl] != [id(x) for x in model] or \
                len(tbl) != len(model):
            return 'records %r, expected %r' % (map(list, tbl),
                                                map(list, model))
        pk = uniq[0][1]
        dom = list(itertools.product(keys, repeat=len(pk)))
        for key in dom:
            want = [x for x in model if tuple(x[n] for n in pk) == key]
            try:
                got = tbl.getrecord(*key)
            except KeyError:
                if want:
                    return 'lookup of %r failed' % (key,)
            else:
                if not want or got is not want[0]:
                    return 'lookup of %r gives %r' % (key, list(got))

    for trial in range(ctx.n(700, 8000)):
        if not ctx.time_left():
            break
        rt, fields, uniq = ktype(r)
        keys = ['x', 'y', r.choice(['z', ''])]
        rows = [[r.choice(keys) for _ in fields] for _ in range(12)]
        ops = [(r.choice(['insert', 'append', 'append', 'set', 'set', 'del',
                          'self']),
                r.randrange(-3, 6), r.randrange(12)) for _ in range(9)]
        init = r.randrange(3)

        def f():
            recs = [rt(*x) for x in rows]
            model = []
            tbl = R.Table(rt, [])

            def clash(rec, others):
                for _, names in uniq:
                    k = [rec[n] for n in names]
                    if any([o[n] for n in names] == k for o in others):
                        return True
                return False
            for op, i, j in ops:
                rec = recs[j]
                if op in ('insert', 'append'):
                    pos = i if op == 'insert' else len(model)
                    bad = clash(rec, model)
                    try:
                        if op == 'insert':
                            tbl.insert(pos, rec)
                        else:
                            tbl.append(rec)
                    except KeyError:
                        if not bad:
                            return 'KeyError for a new key'
                    else:
                        if bad:
                            return 'a duplicate was inserted'
                        model.insert(pos, rec)
                elif op in ('set', 'self'):
                    if not (-len(model) <= i < len(model)):
                        continue
                    if op == 'self':
                        # same key, other object
                        rec = rt(*list(model[i]))
                    i2 = i % len(model)
                    bad = clash(rec, model[:i2] + model[i2 + 1:])
                    try:
                        tbl[i] = rec
                    except KeyError:
                        if not bad:
                            return 'KeyError for a legal replacement'
                    else:
                        if bad:
                            return 'a duplicate replaced a record'
                        model[i] = rec
                else:
                    if not (-len(model) <= i < len(model)):
                        continue
                    del tbl[i]
                    del model[i]
                bad = state_ok(tbl, model, fields, uniq, rt, keys)
                if bad:
                    return 'after %s %s: %s' % (op, i, bad)
        ctx.check('history', (fields, uniq, rows, ops), f)

        def ctor():
            recs = [rt(*x) for x in rows[:init + 1]]
            seen = [set() for _ in uniq]
            dup = False
            for x in recs:
                for s, (_, names) in zip(seen, uniq):
                    k = tuple(x[n] for n in names)
                    dup = dup or k in s
                    s.add(k)
            try:
                tbl = R.Table(rt, recs)
            except KeyError:
                return None if dup else 'KeyError for distinct keys'
            if dup:
                return 'duplicates accepted'
            return state_ok(tbl, recs, fields, uniq, rt, keys)
        ctx.check('constructor', (fields, uniq, rows[:init + 1]), ctor)


def C13(ctx):
    ctx.rule = ('random insertion histories in table sets of three types '
                'with single and double foreign keys')
    r = ctx.rng
    for trial in range(ctx.n(800, 8000)):
        if not ctx.time_left():
            break

        class Parent(R.Record):
            id = R.Field(str)
            pkey = R.Unique('id')

        class Place(R.Record):
            lon = R.Field(str)
            lat = R.Field(str)
            tag = R.Field(str)
            pkey = R.Unique('lon', 'lat')
            bytag = R.Unique('tag')

        class Child(R.Record):
            id = R.Field(str)
            parent = R.Field(str)
            lon = R.Field(str)
            lat = R.Field(str)
            tag = R.Field(str)
            pkey = R.Unique('id')
            parentfk = R.ForeignKey(Parent.pkey, 'parent')
            placefk = R.ForeignKey(Place.pkey, 'lon', 'lat')
            tagfk = R.ForeignKey(Place.bytag, 'tag')

        class Conv(object):
            @classmethod
            def recordtypes(cls):
                return [Parent, Place, Child]
        hist = []
        for _ in range(r.randrange(1, 12)):
            t = r.choice(['P', 'L', 'C', 'C'])
            hist.append((t, [r.choice(['x', 'y', '']) for _ in range(4)],
                         r.random()))
        many = r.random() < .5

        def f():
            ts = R.TableSet(Conv)
            tabs = {'P': [], 'L': [], 'C': []}
            recs = []
            for k, (t, v, _) in enumerate(hist):
                if t == 'P':
                    rec = Parent(v[0])
                elif t == 'L':
                    rec = Place(v[0], v[1], v[2])
                else:
                    rec = Child(str(k), *v)
                recs.append((t, rec, v))

            def outcome(t, rec, v):
                if t == 'P':
                    return KeyError if any(x[0] == v[0]
                                           for x in tabs['P']) else None
                if t == 'L':
                    return KeyError if any(
                        (x[0], x[1]) == (v[0], v[1]) or x[2] == v[2]
                        for x in tabs['L']) else None
                ok = any(x[0] == v[0] for x in tabs['P']) and any(
                    (x[0], x[1]) == (v[1], v[2]) for x in tabs['L']) and \
                    any(x[2] == v[3] for x in tabs['L'])
                return None if ok else R.ForeignKeyError

            def same():
                for key, tbl in zip('PLC', ts.tables):
                    if [id(x) for x in tbl] != [id(x) for x in tabs[key]]:
                        return 'table %s is %r, expected %r' % (
                            key, map(list, tbl), map(list, tabs[key]))
                if ts.tableParent is not ts.tables[0] or \
                        ts.tableChild is not ts.tables[2]:
                    return 'tables are not the attributes'
            if many:
                stop = None
                for t, rec, v in recs:
                    stop = outcome(t, rec, v)
                    if stop:
                        break
                    tabs[t].append(rec)
                try:
                    ts.insert_all(iter([x[1] for x in recs]))
                except (KeyError, R.ForeignKeyError) as e:
                    if stop is None or not isinstance(e, stop):
                        return 'insert_all raised %r' % e
                else:
                    if stop:
                        return 'insert_all did not raise'
                return same()
            for t, rec, v in recs:
                want = outcome(t, rec, v)
                try:
                    ts.insert(rec)
                except (KeyError, R.ForeignKeyError) as e:
                    if want is None or not isinstance(e, want):
                        return '%r raised for %s%r' % (e, t, list(rec))
                else:
                    if want:
                        return 'accepted %s%r' % (t, list(rec))
                    tabs[t].append(rec)
                bad = same()
                if bad:
                    return bad
        ctx.check('history', (hist, many), f)
    # the tables of the real converters
    from openquake.commonlib import converter
    for conv in vars(converter).values():
        if not (isinstance(conv, type) and issubclass(
                conv, converter.Converter)) or conv is converter.Converter:
            continue

        def real():
            ts = R.TableSet(conv)
            kept = dict((rt, []) for rt in conv.recordtypes())
            for k in range(40):
                rt = r.choice(list(kept))
                rec = rt(*[r.choice('123') for _ in rt.fields])
                if any(getattr(rec, u.name) == getattr(x, u.name)
                       for u in rt.get_descriptors(R.Unique)
                       for x in kept[rt]):
                    continue
                ok = all(any(getattr(rec, fk.name) == getattr(
                    x, fk.unique.name) for x in kept[fk.unique.recordtype])
                    for fk in rt.get_descriptors(R.ForeignKey))
                try:
                    ts.insert(rec)
                except R.ForeignKeyError:
                    if ok:
                        return '%r refused' % rec
                else:
                    if not ok:
                        return '%r accepted' % rec
                    kept[rt].append(rec)
                for t, recs in kept.items():
                    if list(getattr(ts, 'table' + t.__name__)) != recs:
                        return 'table of %s' % t.__name__
        for _ in range(ctx.n(4, 40)):
            ctx.check('the tables of a converter', conv.__name__, real)


def C14(ctx):
    ctx.rule = 'random sequences of records of random types'
    r = ctx.rng
    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        rt, specs = mktype(r, 'T')
        rows = [texts(r, specs, r.choice([0, .2, .6]))
                for _ in range(r.randrange(7))]
        same = r.random() < .3
        if same and rows:
            rows = [r.choice(rows[:2]) for _ in rows]

        def f():
            recs = [rt(*x) for x in rows]
            if same:
                # the same object at several places
                recs = [recs[rows.index(x)] for x in rows]
            got = list(R.find_invalid(r.choice([iter, list, tuple])(recs)))
            want = []
            for i, x in enumerate(rows):
                _, errs = errors_of(specs, x)
                if errs:
                    want.append((i, errs))
            if [(e.rowno, e.errorlist) for e in got] != want:
                return 'reports %r, expected %r' % (
                    [(e.rowno, e.errorlist) for e in got], want)
            for e in got:
                if not isinstance(e, R.InvalidRecord) or \
                        e.record is not recs[e.rowno]:
                    return 'wrong record at %d' % e.rowno
        ctx.check('find_invalid', ([s[0] for s in specs], rows), f)
