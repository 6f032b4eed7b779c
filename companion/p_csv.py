"""Archives and CSV files."""
import os
import shutil
import tempfile

from openquake.nrmllib import InvalidFile
from openquake.commonlib import csvmanager as C
from openquake.commonlib import converter, records as R

import run

NAMES = ['a', 'b', 'x.csv', 'p__Location.csv', 'p__Asset.csv', 'a b', 'ab',
         'q__Location.csv', '.x', '%s', 'A']
CHUNKS = ['', 'x', '1,2\n', 'a\nb\n', '\n', 'x' * 5000, '"q"', ' ', '0',
          '\\', '\t', '\r\n']


class Box(object):
    """an archive of each kind in a folder of its own"""
    def __init__(self, kind):
        self.kind = kind
        self.d = tempfile.mkdtemp()
        self.new()

    def new(self):
        if self.kind == 'mem':
            self.a = C.MemArchive([])
        elif self.kind == 'zip':
            self.a = C.ZipArchive(os.path.join(self.d, 'x.zip'), 'w')
        else:
            self.a = C.DirArchive(os.path.join(self.d, 'x'), 'w')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.kind == 'zip':
            self.a.zip.close()
        shutil.rmtree(self.d)


def readback(f, how):
    try:
        if how == 'lines':
            out = []
            while True:
                x = f.readline()
                if not x:
                    return ''.join(out)
                out.append(x)
        if how == 'iter':
            return ''.join(f)
        if how == 'parts':
            out = []
            while True:
                x = f.read(3)
                if not x:
                    return ''.join(out)
                out.append(x)
        return f.read()
    finally:
        f.close()


def C15(ctx):
    r = ctx.rng
    for _ in range(ctx.n(250, 2500)):
        if not ctx.time_left():
            break
        for kind in ('mem', 'zip', 'dir'):
            with Box(kind) as box:
                history(ctx, r, box)


def history(ctx, r, box):
    a, want, log = box.a, {}, [box.kind]
    live = []

    def show():
        return ' '.join(log)

    def content():
        for n in NAMES:
            if (n in a) != (n in want):
                return '%r in archive: %s' % (n, n in a)
            if n not in want:
                e = run.raises(C.NotInArchive, a.open, n)
                if e:
                    return 'open(%r): %s' % (n, e)
                continue
            how = r.choice(['read', 'lines', 'iter', 'parts', 'other'])
            if how == 'other':
                f = a.open(n)
                f.readline()
                got = readback(a.open(n), 'read')
                if n not in a:
                    return '%r not in the archive while it is read' % n
                f.close()
            else:
                got = readback(a.open(n, 'r'), how)
            if got != want[n]:
                return '%r: %r read (%s), %r written' % (
                    n, got, how, want[n])
        for p in ('', 'a', 'p__', 'zz'):
            got = sorted(a.extract_filenames(p))
            exp = sorted(n for n in want if n.startswith(p))
            if got != exp:
                return 'names with prefix %r: %r, expected %r' % (
                    p, got, exp)

    def closed():
        a.close()
        for f in live:
            if box.kind != 'mem' and not f.closed:
                return '%r still open' % f.name

    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        n = r.choice(NAMES)
        mode = r.choice(['w', 'w', 'w+'])
        chunks = [r.choice(CHUNKS) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        how = r.choice(['close', 'with', 'archive', 'twice'])
        log.append('%s:%s:%s:%r' % (mode, n, how, chunks))
        f = a.open(n, mode)
        live.append(f)
        if how == 'with':
            with f:
                for c in chunks:
                    f.write(c)
        else:
            for c in chunks:
                f.write(c)
            if how == 'archive':
                ctx.check('closing the archive closes its files', show(),
                          closed)
            else:
                f.close()
                if how == 'twice':
                    f.close()
        want[n] = ''.join(chunks)
        if r.random() < .3:
            ctx.check('what is written is there', show(), content)
        if r.random() < .3:
            # a reader that is left open
            live.append(a.open(n, 'r'))
            live[-1].readline()
    ctx.check('what is written is there', show(), content)
    ctx.check('closing the archive closes its files', show(), closed)
    ctx.check('what is written is there', show() + ' closed', content)


TYPES = [v for n, v in sorted(vars(R).items())
         if isinstance(v, type) and issubclass(v, R.Record) and
         v is not R.Record and v.fields]
TEXTS = ['a\rb', 'a\r\nb', '\r', '\n', '', 'a', '1', '1.0', 'a,b', '"', 'a"b', ' x ', "it's", 'a\nb',
         ',', '%s', '\xc3\xa8', '0', ';', '\t', '#x', '""', "''"]


def C16(ctx):
    r = ctx.rng
    for _ in range(ctx.n(250, 2500)):
        if not ctx.time_left():
            break
        with Box(r.choice(['mem', 'zip', 'dir'])) as box:
            roundtrip(ctx, r, box)
        with Box(r.choice(['mem', 'zip', 'dir'])) as box:
            refused(ctx, r, box)


def roundtrip(ctx, r, box):
    types = r.sample(TYPES, r.choice([1, 1, 2, 4]))
    recs = []
    for _ in range(r.choice([0, 1, 2, 5, 20])):
        t = r.choice(types)
        recs.append(t(*[r.choice(TEXTS) for _ in t.fields]))
        if r.random() < .3:
            recs.append(recs[-1])
    prefix = r.choice(['p', '', 'vulnerability-model', 'a_b'])
    header = r.random() < .7
    how = r.choice(['with', 'archive'])
    inp = [box.kind, how, prefix, header,
           [(type(x).__name__, x.row) for x in recs]]

    def go():
        man = C.CSVManager(box.a, prefix, header)
        if how == 'with':
            with man:
                for x in recs:
                    man.write(x)
        else:
            for x in recs:
                man.write(x)
            box.a.close()
        names = set('%s__%s.csv' % (prefix, type(x).__name__) for x in recs)
        if set(box.a.extract_filenames()) != names:
            return 'files %r' % box.a.extract_filenames()
        back = C.CSVManager(box.a, prefix, header)
        order = list(types)
        r.shuffle(order)
        for t in order:
            want = [x for x in recs if type(x) is t]
            if not want:
                e = run.raises(C.NotInArchive, list, back.read(t))
                if e:
                    return 'reading %s: %s' % (t.__name__, e)
                continue
            got = list(back.read(t))
            if [x.row for x in got] != [x.row for x in want] or \
                    got != want or [x for x in got if type(x) is not t]:
                return '%s: %r read, %r written' % (
                    t.__name__, [x.row for x in got],
                    [x.row for x in want])
        if not header and recs:
            t = type(recs[0])
            f = box.a.open('%s__%s.csv' % (prefix, t.__name__))
            n = len(f.read().splitlines())
            f.close()
            if n < len([x for x in recs if type(x) is t]):
                return '%d lines' % n
    ctx.check('records written are read back', inp, go)


def refused(ctx, r, box):
    t = r.choice(TYPES)
    head = list(t.fieldnames)
    how = r.choice(['swap', 'drop', 'add', 'case', 'none', 'right', 'blank',
                    'same set'])
    if how in ('swap', 'same set'):
        if len(head) < 2:
            return
        i = r.randrange(len(head) - 1)
        head[i], head[i + 1] = head[i + 1], head[i]
    elif how == 'drop':
        if len(head) < 2:
            return
        head.pop(r.randrange(len(head)))
    elif how == 'add':
        head.append('x')
    elif how == 'case':
        head[0] = head[0].swapcase()
    elif how == 'none':
        head = ['1'] * len(head)
    elif how == 'blank':
        head[-1] += ' '
    rows = [['1'] * len(t.fields) for _ in range(r.choice([0, 1, 3]))]
    text = ''.join(','.join(x) + '\r\n' for x in [head] + rows)
    with box.a.open('p__%s.csv' % t.__name__, 'w') as f:
        f.write(text)

    def go():
        man = C.CSVManager(box.a, 'p')
        if how != 'right':
            return run.raises(InvalidFile, list, man.read(t))
        got = list(man.read(t))
        if [x.row for x in got] != rows:
            return '%r' % [x.row for x in got]
    ctx.check('a wrong header is refused', [box.kind, t.__name__, text], go)


# --- groups of files
NOISE = ['readme.txt', 'p.csv', 'p__x__Location.csv', 'p__Nothing.csv',
         'p__Location.txt', 'p_Location.csv', 'p__location.csv',
         'p__LocationXcsv', 'p__.csv', 'p__valid.csv', 'p__Node.csv',
         'q__Field.csv', 'p__csv', 'Location.csv', 'p__Location.csv.bak']
PREFIXES = ['p', 'q', 'a b', 'P', 'exposure-model', 'a_b', 'pq', '']
CONVERTERS = {}
for _t in TYPES:
    CONVERTERS.setdefault(_t.convertername, []).append(_t)
for _l in CONVERTERS.values():
    _l.sort(key=lambda t: t._ordinal)


class One(object):
    """one model of the kinds of C17-C20"""
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng

    def n(self, quick, thorough):
        return 1

    def time_left(self):
        return True


def model(ctx, r):
    """a converter, a function making a model, its records and how the
    model made of them is compared with it"""
    import p_converter as P
    out = []
    old = P.both
    P.both = lambda ctx, clause, conv, build, want, back=None, many=None: \
        out.append((conv, build, want, back or P.same))
    try:
        getattr(P, r.choice(['C17', 'C18', 'C19', 'C20']))(One(ctx, r))
    finally:
        P.both = old
    return out[0]


def put_rows(a, name, rows):
    import csv
    f = a.open(name, 'w')
    w = csv.writer(f)
    for x in rows:
        w.writerow(x)
    f.close()


def put_table(a, prefix, t, rows, header):
    put_rows(a, '%s__%s.csv' % (prefix, t.__name__), (
        [t.fieldnames] if header else []) + list(rows))


def C41(ctx):
    r = ctx.rng
    for _ in range(ctx.n(250, 2500)):
        if not ctx.time_left():
            break
        for f in (pipeline, grouped, searched):
            with Box(r.choice(['mem', 'mem', 'zip', 'dir'])) as box:
                f(ctx, r, box)


def noise(r, a):
    names = r.sample(NOISE, r.choice([0, 0, 1, 3]))
    for n in names:
        put_rows(a, n, [['x', 'y']])
    return names


def contents(a, name):
    import csv
    f = a.open(name)
    try:
        return [list(x) for x in csv.reader(f)]
    finally:
        f.close()


def pipeline(ctx, r, box):
    """a model, its files and the model again"""
    try:
        conv, build, want, back = model(ctx, r)
    except IndexError:
        return
    header, how = r.random() < .6, r.choice(['prefix', 'own'])
    prefix = r.choice(PREFIXES)
    other = r.choice(PREFIXES)
    junk = noise(r, box.a)
    inp = [box.kind, header, how, prefix, other, junk, want]

    def made():
        c = converter.Converter.from_node(build())
        if type(c) is not conv:
            return 'converter %r' % c
        got = [(type(x).__name__, x.row) for t in c.tableset for x in t]
        if sorted(got) != sorted((n, list(row)) for n, row in want):
            return 'records %r' % got
    ctx.check('the converter of a model', inp, made)

    def go():
        if how == 'own':
            man = C.CSVManager(box.a, prefix, header)
            got = man.convert_from_node(build())
            if got is not man:
                return 'another manager'
        else:
            man = C.CSVManager(box.a, other, has_header=header)
            man = man.convert_from_node(build(), prefix)
        if man.prefix != prefix:
            return 'prefix %r' % man.prefix
        names = set('%s__%s.csv' % (prefix, n) for n, row in want)
        if set(box.a.extract_filenames()) != names | set(junk):
            return 'files %r' % box.a.extract_filenames()
        for n in names:
            t = getattr(R, n[len(prefix) + 2:-4])
            exp = [row for m, row in want if m == t.__name__]
            got = contents(box.a, n)
            if got != ([t.fieldnames] if header else []) + exp:
                return '%s: %r' % (n, got)
        if not want:
            return run.raises(C.NotInArchive, man.get_tableset)
        for m in (C.CSVManager(box.a, prefix, header), man):
            tset = m.get_tableset()
            for t in conv.recordtypes():
                tab = getattr(tset, 'table' + t.__name__)
                if [x.row for x in tab] != [row for n, row in want if
                                            n == t.__name__]:
                    return '%s: %r' % (t.__name__, [x.row for x in tab])
            if tset.convertertype is not conv:
                return 'converter %r' % tset.convertertype
            m = C.CSVManager(box.a, prefix, header)
            bad = back(m.convert_to_node(), build())
            if bad:
                return bad
            break
    ctx.check('a model as files and back', inp, go)


def grouped(ctx, r, box):
    """table sets of any files"""
    header = r.random() < .6
    junk = noise(r, box.a)
    groups = {}
    for p in r.sample(PREFIXES, r.choice([0, 1, 1, 1, 1, 2, 3])):
        c = r.choice(sorted(CONVERTERS))
        types = r.sample(CONVERTERS[c], r.randrange(1, 1 + len(
            CONVERTERS[c])))
        if r.random() < .3:
            types.append(r.choice(TYPES))
        groups[p] = sorted(set(types), key=lambda t: t.__name__)
    rows = {}
    for p, types in groups.items():
        for t in types:
            # tables that need no other table, or are needed by none
            lone = not t.get_descriptors(R.ForeignKey)
            rows[p, t] = [[str(k)] * len(t.fields) for k in range(
                r.choice([0, 1, 3]) if lone else 0)]
            put_table(box.a, p, t, rows[p, t], header)
    inp = [box.kind, header, junk, [(p, [t.__name__ for t in ts]) for p, ts
                                    in sorted(groups.items())]]

    def go():
        prefix = min(groups) if groups else 'p'
        man = C.CSVManager(box.a, prefix, header)
        if not groups:
            return run.raises(C.NotInArchive, man.get_tableset) or \
                run.raises(C.NotInArchive, man.convert_to_node)
        if len(groups) > 1:
            return run.raises(C.MultipleManagerError, man.get_tableset)
        tset = man.get_tableset()
        [types] = groups.values()
        want = types[0].convertername
        if tset.convertertype.__name__ != want:
            return 'converter %s, expected %s' % (
                tset.convertertype.__name__, want)
        for t in CONVERTERS[want]:
            got = [x.row for x in getattr(tset, 'table' + t.__name__)]
            if got != rows.get((prefix, t), []):
                return '%s: %r' % (t.__name__, got)
    ctx.check('the table set of an archive', inp, go)
    if len(groups) != 1:
        return

    def wrong():
        p, types = list(groups.items())[0]
        mine = [t for t in types if t.convertername ==
                types[0].convertername]
        t = r.choice(mine)
        put_rows(box.a, '%s__%s.csv' % (p, t.__name__), [
            t.fieldnames + ['x']])
        return run.raises(InvalidFile, C.CSVManager(box.a, p).get_tableset)
    ctx.check('the table set of a file with another header', inp, wrong)


def searched(ctx, r, box):
    """the invalid records of every file"""
    header = r.random() < .6
    junk = noise(r, box.a)
    files = []
    for p in r.sample(PREFIXES, r.choice([0, 1, 1, 2, 3])):
        c = r.choice(sorted(CONVERTERS))
        for t in r.sample(CONVERTERS[c], r.randrange(1, 1 + len(
                CONVERTERS[c]))):
            rows = [[r.choice(['1', 'x', '', '0.5', '-1']) for _ in t.fields]
                    for _ in range(r.choice([0, 1, 3, 6]))]
            files.append((p, t, rows))
            put_table(box.a, p, t, rows, header)
    own = r.choice(PREFIXES)
    inp = [box.kind, header, own, junk, [(p, t.__name__, rows) for
                                         p, t, rows in files]]

    def show(errs):
        return [(e.fname, e.rowno, type(e.record).__name__, e.record.row)
                for e in errs]

    def go():
        want = []
        for p, t, rows in files:
            for k, row in enumerate(rows):
                if t(*row).cast()[1] is not None:
                    want.append(('%s__%s.csv' % (p, t.__name__), k,
                                 t.__name__, row))
        got = show(C.CSVManager(box.a, own, header).find_invalid())
        if sorted(got) != sorted(want):
            return '%r, expected %r' % (got, want)
        order = dict((t.__name__, t._ordinal) for t in TYPES)
        for p in set(x[0] for x in files):
            mine = [(order[n], k) for f, k, n, row in got
                    if f.rsplit('__', 1)[0] == p]
            if mine != sorted(mine):
                return 'order %r' % mine
        for limit in (0, 1, 2, len(want), len(want) + 3):
            some = show(C.CSVManager(box.a, own, header).find_invalid(
                limit))
            if some != got[:limit]:
                return 'limit %d: %r' % (limit, some)
    ctx.check('the invalid records of every file', inp, go)
