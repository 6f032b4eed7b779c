"""csvmanager.py: archives of files and tables as CSV files."""
from .base import *     # noqa
from .c_logictree import sym_dict
from .c_source import consume
from pydv.engine import HZip, HSet, HGen, ModuleV
from pydv.interp import StarSym

S = z3.StringSort()
V = z3.StringVal
Strs = TSeq(TStr)
NAMES = TMap(TStr, TStr)
Pair = TTup(TStr, TStr)
Pairs = TSeq(Pair)
READ = ('r', 'rb', 'rU', 'U')
WRITE = ('w', 'w+', 'wb', 'w+b')
slash = z3.Function('folder with its slash', S, S)
linef = z3.Function('first line', S, S)
headf = z3.Function('first bytes', S, z3.IntSort(), S)

# --- files of the operating system, of zip archives or in memory: each has
# an identity; its state is kept in arrays: data (all its text), rest (the
# text not yet read), closed, alive
Raw = TObj('RawFile', mut={
    '_data': TStr, '_rest': TStr, '_closed': TBool, '_alive': TBool,
    '_path': TStr})
# --- instances of the file classes of csvmanager
File = TObj('File', mut={'_alive': TBool})


def state(E, f, a):
    return z3.Select(E.array(Raw if f.sort() == Raw.sort() else File, a), f)


def put(E, f, a, v):
    t = Raw if f.sort() == Raw.sort() else File
    E.st.arrays[(t.name, a)] = z3.Store(E.array(t, a), f, v)


def kind(E, f):
    k = E.st.ghost.get(('uncons', 'fileclass', z3.simplify(f).sexpr()))
    return k or ('memory' if f.sort() == Raw.sort() else File.default)


def new(E, t, cls):
    """a file object unlike any before"""
    f = E.fresh('file', t)
    E.assume(z3.Not(state(E, f.e, '_alive')))
    put(E, f.e, '_alive', T)
    E.st.ghost[('uncons', 'fileclass', f.e.sexpr())] = cls
    return f


def r_getattr(E, o, a):
    k = kind(E, o.e)
    if a == 'name':
        return Sym(TStr, state(E, o.e, '_path'))
    if a == 'closed':
        return Sym(TBool, state(E, o.e, '_closed'))
    m = METHODS.get(a)
    if m is None or a == 'getvalue' and k != 'memory':
        E.raise_('AttributeError', a)
    return Builtin('file.' + a, lambda E, args, kw: m(E, o, k, *args, **kw))


def f_getattr(E, o, a):
    key = z3.simplify(o.e).sexpr()
    py = E.st.ghost.get(('uncons', 'attr', key, a))
    if py is not None:
        return py[0]
    if 'py_' + a in File.mut:
        return E.getattr(o, 'py_' + a)
    k = kind(E, o.e)
    f, owner = k.lookup(a)
    if isinstance(f, FuncV):
        return BoundV(o, f)
    raise Unsupported('attribute %s of a %s' % (a, k.name))


def f_setattr(E, o, a, v):
    if isinstance(v, Ref) or v is None or E.typ(v) is Zip:
        key = z3.simplify(o.e).sexpr()
        E.st.ghost[('uncons', 'attr', key, a)] = (v,)
        return
    if 'py_' + a not in File.mut:
        File.mut['py_' + a] = E.typ(v)
    put(E, o.e, 'py_' + a, E.z(v, File.mut['py_' + a]))


def same(E, x, y):
    return x.e == y.e if isinstance(y, Sym) and y.t is x.t else False


Raw.hooks = {'getattr': r_getattr, 'eq': same}
File.hooks = {'eq': same, 'getattr': f_getattr, 'setattr': f_setattr,
              'type': lambda E, o: kind(E, o.e)}


def flush(E, o, k):
    if k == 'writing':
        E.setitem(E.disk, Sym(TStr, state(E, o.e, '_path')),
                  Sym(TStr, state(E, o.e, '_data')))


def is_open(E, o):
    if E.branch(state(E, o.e, '_closed')):
        E.raise_('ValueError', 'I/O operation on closed file')


def write(E, o, k, s):
    is_open(E, o)
    if k not in ('writing', 'memory'):
        E.raise_('IOError', 'File not open for writing')
    if E.branch(state(E, o.e, '_rest') != V('')):
        raise Unsupported('writing in the middle of a file')
    put(E, o.e, '_data', z3.Concat(state(E, o.e, '_data'), E.z(s, TStr)))


def read(E, o, k, n=-1):
    is_open(E, o)
    rest = state(E, o.e, '_rest')
    if n == -1 or n is None:
        put(E, o.e, '_rest', V(''))
        return Sym(TStr, rest)
    r = headf(rest, E.z(n, TInt))
    E.assume(z3.PrefixOf(r, rest))
    put(E, o.e, '_rest', z3.SubString(rest, z3.Length(r),
                                      z3.Length(rest) - z3.Length(r)))
    return Sym(TStr, r)


def close(E, o, k):
    if E.branch(state(E, o.e, '_closed')):
        return
    flush(E, o, k)
    put(E, o.e, '_closed', T)
    if ('uncons', 'temporary', o.e.sexpr()) in E.st.ghost:
        E.call(E.getattr(E.disk, 'pop'), [
            Sym(TStr, state(E, o.e, '_path')), None])


def seek(E, o, k, pos=0, whence=0):
    if (pos, whence) != (0, 0):
        raise Unsupported('seek')
    is_open(E, o)
    flush(E, o, k)
    put(E, o.e, '_rest', state(E, o.e, '_data'))


def getvalue(E, o, k):
    is_open(E, o)
    return Sym(TStr, state(E, o.e, '_data'))


METHODS = {
    'write': write, 'read': read, 'close': close, 'seek': seek,
    'getvalue': getvalue, 'flush': lambda E, o, k: flush(E, o, k),
    '__enter__': lambda E, o, k: o,
    '__exit__': lambda E, o, k, *a: close(E, o, k)}


def opened(E, k, path, data, start):
    f = new(E, Raw, k)
    put(E, f.e, '_data', data)
    put(E, f.e, '_rest', data if start else V(''))
    put(E, f.e, '_closed', F)
    put(E, f.e, '_path', path)
    return f


def setup_files(E):
    """the file system as a map from paths to texts"""
    File.mut = dict((a, t) for a, t in File.mut.items()
                    if not a.startswith('py_'))
    File.mut['py_fileobj'] = Raw
    File.default = None
    ext = E.externals

    def s(v):
        return E.z(v, TStr)

    def ioerror(E):
        exc = E.mkexc(EXC['IOError'], (2, 'No such file or directory'))
        E.h(exc).attrs['errno'] = 2
        raise PyExc(exc)

    def open_(E, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        there = E.contains(a[0], E.disk)
        if mode in READ:
            if not E.branch(there):
                ioerror(E)
            return opened(E, 'reading', s(a[0]), s(E.getitem(
                E.disk, a[0])), True)
        if mode in WRITE:
            E.setitem(E.disk, a[0], '')
            return opened(E, 'writing', s(a[0]), V(''), True)
        raise Unsupported('mode %r' % (mode,))

    def exists(E, a, k):
        if getattr(E, 'folder', None) is not None and \
                s(a[0]).eq(E.folder.e):
            return E.has_folder
        return E.boolv(E.contains(a[0], E.disk))

    def mkdir(E, a, k):
        E.prove('only a missing folder is created', z3.And(
            s(a[0]) == E.folder.e, z3.Not(E.z(E.has_folder, TBool))))
        E.has_folder = True

    def listdir(E, a, k):
        E.prove('the folder of the archive is listed',
                s(a[0]) == E.folder.e)
        return E.new_list(listing(E, lambda x: E.contains(
            Sym(TStr, inside(E, x)), E.disk)))

    def stringio(E, a, k):
        return opened(E, 'memory', V(''), s(a[0]) if a else V(''), True)

    def temp(E, a, k):
        mode = a[0] if a else k.get('mode', 'w+b')
        if mode not in WRITE:
            raise Unsupported('temporary file %r' % (mode,))
        p = E.fresh('temporary path', TStr)
        E.assume(z3.Not(z3.PrefixOf(slash(E.folder.e), p.e)))
        E.setitem(E.disk, p, '')
        f = opened(E, 'writing', p.e, V(''), True)
        E.st.ghost[('uncons', 'temporary', f.e.sexpr())] = True
        return f

    def remember(E, cls, a, k):
        o = new(E, File, cls)
        E.call(BoundV(o, cls.lookup('__init__')[0]), a, k)
        return o
    E.construct['FileObject'] = remember
    E.construct['TempFile'] = remember
    ext['open'] = open_
    ext['StringIO.StringIO'] = stringio
    ext['tempfile.NamedTemporaryFile'] = temp
    ext['os.path.exists'] = exists
    ext['os.path.isfile'] = exists
    ext['os.mkdir'] = ext['os.makedirs'] = mkdir
    ext['os.listdir'] = listdir
    ext['os.path.join'] = lambda E, a, k: Sym(TStr, z3.Concat(
        slash(s(a[0])), s(a[1])))
    ext['zipfile.ZipFile'] = lambda E, a, k: E.zip
    E.ext_values['errno.ENOENT'] = 2
    E.modules.pop('openquake.commonlib.csvmanager', None)
    E.lookup_path('csvmanager.Archive')


def inside(E, name):
    return z3.Concat(slash(E.folder.e), name)


def listing(E, has):
    """names in some order: those in has (instances at the names of the
    proof)"""
    s = E.fresh('names', Strs)
    E.reg(Strs, s.e)
    mem = E.memfold(Strs)
    for x in E.names:
        h = has(x)
        E.assume(mem(s.e, x) == (h if not isinstance(h, bool) else
                                 z3.BoolVal(h)))
    return s


# --- zip files: the texts by name, and the messages of zipfile
Zip = TObj('ZipFile', attrs={'filename': TStr})
ZInfo = TObj('ZipInfo', attrs={'filename': TStr})
zinfo = z3.Function('entry called', S, ZInfo.sort())


def zipfile(E, entries):
    def s(v):
        return E.z(v, TStr)

    def zopen(E, o, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode not in READ:
            E.raise_('RuntimeError', 'open() requires mode "r"')
        if not E.branch(E.contains(a[0], entries)):
            E.raise_('KeyError', 'There is no item')
        return opened(E, 'reading', s(a[0]), s(E.getitem(
            entries, a[0])), True)

    def zwrite(E, o, a, k):
        path = a[0]
        name = a[1] if len(a) > 1 else k.get('arcname', path)
        if not E.branch(E.contains(path, E.disk)):
            E.raise_('OSError', 'No such file or directory')
        E.setitem(entries, name, E.getitem(E.disk, path))

    def zwritestr(E, o, a, k):
        E.setitem(entries, a[0], a[1])

    def has(x):
        return E.contains(Sym(TStr, x), entries)

    def info(v):
        r = zinfo(s(v))
        E.assume(ZInfo.attrfn('filename')(r) == s(v))
        return Sym(ZInfo, r)
    Zip.meths = {
        'open': zopen, 'write': zwrite, 'writestr': zwritestr,
        'namelist': lambda E, o, a, k: E.new_list(listing(E, has)),
        'infolist': lambda E, o, a, k: E.alloc(HZip(
            [listing(E, has)], lambda vs: info(vs[0]))),
        'close': lambda E, o, a, k: None}
    return E.const('zip', Zip)


class Box(object):
    """an archive of some kind after any history, and what it holds"""
    def __init__(self, E, which):
        self.E, self.which = E, which
        setup_files(E)
        E.folder = E.const('folder', TStr)
        self.n, self.b, self.pre = [E.const(x, TStr) for x in (
            'n', 'b', 'prefix')]
        E.names = [self.n.e, self.b.e]
        mem = self.mem = E.memfold(Strs)
        mem.insts = [(x,) for x in E.names]
        self.has0 = E.const('names there', TMap(TStr, TStr))
        E.templates.append(self.tmpl)
        E.set_hooks.append(lambda E, v, s, at: [at(x) for x in E.names]
                           if v.t.k == TStr else None)
        E.watch = []

    def tmpl(self, E, seq, L0, node):
        """names that start with the prefix, so far"""
        out = []
        if seq is None or seq.t != Strs:
            return out
        for n, (lt, e) in L0.items():
            for x in E.names:
                pre = z3.PrefixOf(self.pre.e, x)
                if lt == Strs:
                    out.append(('%s has %s so far' % (n, x), lambda p, L,
                                n=n, x=x, pre=pre: self.mem(
                                    L[n][1], x) == z3.And(
                                        self.mem(p, x), pre)))
                elif isinstance(lt, TSet) and lt.k == TStr:
                    out.append(('%s has %s so far' % (n, x), lambda p, L,
                                n=n, x=x, pre=pre: z3.Select(
                                    L[n][1], x) == z3.And(
                                        self.mem(p, x), pre)))
        return out

    def make(self, fresh=False):
        """the archive; with fresh, nothing was opened through it yet"""
        E, w = self.E, self.which
        m = self.has0
        E.watch = []
        E.disk = sym_dict(E, E.fresh('disk', NAMES))
        if w == 'dir':
            # the folder holds the files
            E.disk = sym_dict(E, self.has0)
            E.has_folder, mode = [(True, 'r'), (True, 'w'), (False, 'r'),
                                  (False, 'w+')][E.choose(4)]
            if not E.has_folder:
                for x in E.names:
                    E.assume(z3.Not(NAMES.has(m.e)[inside(E, x)]))
            a, exc = attempt(E, lambda: E.call(E.lookup_path(
                'csvmanager.DirArchive'), [E.folder, mode]))
            if exc is not None:
                E.prove('only a missing folder cannot be read', z3.And(
                    z3.BoolVal(mode == 'r'), z3.BoolVal(
                        not E.has_folder)))
                return None
            return a
        if w == 'zip':
            self.entries = sym_dict(E, m)
            E.zip = zipfile(E, self.entries)
            return E.call(E.lookup_path('csvmanager.ZipArchive'),
                          ['x.zip', 'a'])
        File.default = E.lookup_path('csvmanager.FileObject')
        a = E.call(E.lookup_path('csvmanager.MemArchive'), [E.new_list([])])
        d = [v for v in E.h(a).attrs.values()
             if isinstance(v, Ref) and isinstance(E.h(v), HDict)]
        if len(d) != 1:
            raise Unsupported('the files of a memory archive')
        FILES = TMap(TStr, File)
        M = E.const('files', FILES)
        h = E.hmut(d[0])
        h.d, h.m = None, M
        for x in E.names:
            f = FILES.val(M.e)[x]
            buf = state(E, f, 'py_fileobj')
            E.watch.append(buf)
            E.assume(z3.And(
                state(E, f, '_alive'), state(E, buf, '_alive'),
                z3.Not(state(E, buf, '_closed')), NAMES.has(m.e)[x] ==
                FILES.has(M.e)[x], state(E, buf, '_data') ==
                NAMES.val(m.e)[x]))
        return a

    def has(self, x):
        return NAMES.has(self.has0.e)[self.key(x)]

    def val(self, x):
        return NAMES.val(self.has0.e)[self.key(x)]

    def key(self, x):
        return inside(self.E, x) if self.which == 'dir' else x


def holds(E, B, a, name, want_has, want, what):
    """the archive lists, contains and gives back the file `name`"""
    n = Sym(TStr, name)
    obs = E.choose(3)
    if obs == 0:
        r = E.call(E.getattr(a, 'extract_filenames'), [B.pre])
        E.prove('%s is listed (with its prefix)' % what, E.z(E.boolv(
            E.contains(n, r)), TBool) == z3.And(
                want_has, z3.PrefixOf(B.pre.e, name)))
        return
    if obs == 1:
        r = E.call(E.getattr(a, '__contains__'), [n])
        E.prove('%s is contained' % what, E.z(r, TBool) == want_has)
    f, exc = attempt(E, lambda: E.call(E.getattr(a, 'open'), [n] + [
        [], ['r']][E.choose(2)]))
    if exc is not None:
        E.prove('%s: opened when it is there' % what, z3.Not(want_has))
        E.prove('%s: a missing file is reported' % what, exc_is(
            E, exc, 'csvmanager.NotInArchive'))
        reach(E, 'missing')
        return
    E.prove('%s: a missing file is not opened' % what, want_has)
    r = E.call(E.getattr(f, 'read'), [])
    E.prove('%s: same content' % what, E.z(r, TStr) == want)
    if obs == 2:
        # while it is still open
        g = E.call(E.getattr(a, 'open'), [n, 'r'])
        r = E.call(E.getattr(g, 'read'), [])
        E.prove('%s: same content for the next reader' % what,
                E.z(r, TStr) == want)
    E.call(E.getattr(f, 'close'), [])
    reach(E, 'read')


def t_write(which):
    def t(E):
        """a file written and closed is listed, contained and reads back;
        the others are as they were"""
        B = Box(E, which)
        chunks = E.const('chunks', Strs)
        joined = E.add_fold(Fold('written', TStr, TStr, V(''), lambda
                                 a, x, p: z3.Concat(a, x)))
        E.writing = []

        def tmpl(E, seq, L0, node):
            if seq is None or seq.t != Strs:
                return []
            datas = [(nm, e) for nm, (lt, e) in L0.items()
                     if nm.endswith('._data')]
            return [('%s: written so far' % nm, lambda p, L, nm=nm, f=f:
                     z3.Select(L[nm][1], f) == joined(p))
                    for nm, e in datas for f in E.writing] + [
                ('%s: no other file is written' % nm, lambda p, L, nm=nm,
                 e=e, f=f: z3.Select(L[nm][1], f) == z3.Select(e, f))
                for nm, e in datas for f in E.watch]
        E.templates.append(tmpl)

        def run():
            n, b = B.n.e, B.b.e
            a = B.make()
            if a is None:
                return
            E.reg(Strs, chunks.e)
            how = E.choose(4)
            mode = ['w', 'w+'][E.choose(2)]
            f = E.call(E.getattr(a, 'open'), [B.n, mode])
            E.writing = [f.e if f.t is Raw else E.getattr(f, 'fileobj').e]
            put_all(E, chunks, lambda x: E.call(E.getattr(f, 'write'), [x]))
            if how == 2:
                E.call(E.getattr(a, 'close'), [])
            elif how == 3:
                E.call(E.getattr(a, '__exit__'), [None, None, None])
            elif how == 1:
                E.call(E.getattr(f, '__exit__'), [None, None, None])
                E.call(E.getattr(a, 'close'), [])
            else:
                E.call(E.getattr(f, 'close'), [])
            if E.choose(2):
                holds(E, B, a, n, T, joined(chunks.e), 'the file')
            else:
                E.assume(b != n)
                holds(E, B, a, b, B.has(b), B.val(b), 'another file')
        return run
    return t


def put_all(E, seq, do):
    E.loop_over({'_': 'For', 'lineno': 0}, E.cur_frame(), seq,
                lambda x: do(x), lambda: None)


Opened = TObj('OpenedFile', mut={'_closed': TBool}, meths={
    'close': lambda E, o, a, k: E.st.arrays.__setitem__(
        ('OpenedFile', '_closed'), z3.Store(
            E.array(Opened, '_closed'), o.e, T))})


def t_closing(which):
    def t(E):
        """closing the archive closes every file opened through it"""
        B = Box(E, which)
        x = z3.Const('any file', Opened.sort())
        O = E.const('opened', TSet(Opened))
        files = TSeq(Opened)
        mem = E.memfold(files)
        mem.insts = [(x,)]
        E.set_hooks.append(lambda E, v, s, at: at(x)
                           if v.t.k is Opened else None)
        E.templates.append(lambda E, seq, L0, node: [
            ('closed so far', lambda p, L, n=n, e=e: z3.Select(
                L[n][1], x) == z3.Or(z3.Select(e, x), mem(p, x)))
            for n, (lt, e) in L0.items() if n.endswith('._closed')
            and seq is not None and seq.t == files])
        cname = {'dir': 'Dir', 'zip': 'Zip', 'mem': 'Mem'}[which]

        def run():
            a = B.make()
            if a is None:
                return
            f = E.fresh('file', Opened)
            E.contracts['csvmanager.%sArchive._open' % cname] = \
                lambda E, a, k: f
            sets = [v for v in E.h(a).attrs.values()
                    if isinstance(v, Ref) and isinstance(E.h(v), HSet)]
            if len(sets) != 1:
                raise Unsupported('the opened files of an archive')
            E.hmut(sets[0]).items = O
            r = E.call(E.getattr(a, 'open'), [B.n] + [
                [], ['r'], ['w']][E.choose(3)])
            E.prove('the opened file is returned', r is f)
            if E.choose(2):
                E.call(E.getattr(a, 'close'), [])
            else:
                r = E.call(E.getattr(a, '__exit__'), [None, None, None])
                E.prove('errors go on', r in (None, False))
            E.prove('every file opened is closed', z3.Implies(
                z3.Or(z3.Select(O.e, x), x == f.e), z3.Select(
                    E.array(Opened, '_closed'), x)))
            reach(E, 'end')
        return run
    return t


def t_wrapper(E):
    """a wrapped file gives what the file gives"""
    setup_files(E)
    log = []
    out = dict((m, E.const(m, TStr)) for m in ('read', 'readline', 'next'))

    def meth(m):
        def f(E, o, a, k):
            log.append((m, list(a) + list(k.values())))
            return out.get(m)
        return f
    under = E.const('file', TObj('Underlying', meths=dict(
        (m, meth(m)) for m in ('read', 'readline', 'next', 'write', 'flush',
                               'close'))))
    n, text = E.const('n', TInt), E.const('text', TStr)
    calls = [('read', [], [-1]), ('read', [n], [n]), ('readline', [], []),
             ('next', [], []), ('write', [text], [text]),
             ('flush', [], []), ('close', [], [])]

    def run():
        del log[:]
        cls = E.lookup_path('csvmanager.FileWrapper')
        w = E.call(cls, [])
        E.setattr(w, 'fileobj', under)
        m, args, want = calls[E.choose(len(calls))]
        r = E.call(E.getattr(w, m), args)
        E.prove('the call goes to the file once', len(log) == 1 and
                log[0][0] == m)
        got = log[0][1]
        E.prove('with its arguments', got == [] and want in ([], [-1]) or
                len(got) == len(want) and all(
                    x is y or x == y for x, y in zip(got, want)))
        if m in out:
            E.prove('and its result', r is out[m])
        E.prove('it is its own iterator', E.call(E.getattr(
            w, '__iter__'), []) == w)
        E.prove('and its own context', E.call(E.getattr(
            w, '__enter__'), []) == w)
        del log[:]
        r = E.call(E.getattr(w, '__exit__'), [None, None, None])
        E.prove('leaving it closes the file', [x for x, y in log] == [
            'close'] and r in (None, False))
        reach(E, 'end')
    return run


def t_mem(E):
    """a memory archive of given files holds the last text of each name"""
    B = Box(E, 'mem')
    items = E.const('items', Pairs)
    b = B.b.e
    last = E.add_fold(Fold('text', Pair, TOpt(TStr), TOpt(TStr).none, lambda
                           a, x, p: z3.If(Pair.get(x, 0) == b, TOpt(
                               TStr).some(Pair.get(x, 1)), a)))
    FILES = TMap(TStr, File)
    OS = TOpt(TStr)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != Pairs:
            return []
        out = []
        leaf = lambda end: [n for n in L0 if n.endswith(end)]
        names = [leaf(x) for x in ('RawFile._data', 'RawFile._closed',
                                   'File.py_fileobj', 'RawFile._alive',
                                   'File._alive')]
        for m, (lt, e) in L0.items():
            if lt != FILES:
                continue
            out.append(('%s has the names so far' % m, lambda p, L, m=m:
                        z3.Select(FILES.has(L[m][1]), b) == z3.Not(
                            OS.is_none(last(p)))))
            if not all(names):
                continue
            d, c, o, ar, af = [x[0] for x in names]

            def there(p, L, m=m):
                f = z3.Select(FILES.val(L[m][1]), b)
                raw = z3.Select(L[o][1], f)
                return z3.Implies(z3.Not(OS.is_none(last(p))), z3.And(
                    z3.Select(L[d][1], raw) == OS.val(last(p)),
                    z3.Not(z3.Select(L[c][1], raw)),
                    z3.Select(L[ar][1], raw), z3.Select(L[af][1], f)))
            out.append(('%s has the texts so far' % m, there))
        return out
    E.templates.append(tmpl)

    def run():
        File.default = E.lookup_path('csvmanager.FileObject')
        E.reg(Pairs, items.e)
        a = E.call(E.lookup_path('csvmanager.MemArchive'),
                   [E.new_list(items)])
        E.watch = []
        want = last(items.e)
        holds(E, B, a, b, z3.Not(OS.is_none(want)), OS.val(want), 'a file')
    return run


# --- tables as files of comma separated values
Row = TSeq(TStr)
Rows = TSeq(Row)
RT = TObj('RecordType', attrs={'__name__': TStr, 'fieldnames': Row})
Rec = TObj('CsvRecord', attrs={'type': RT, 'row': Row})
typef, rowf = Rec.attrfn('type'), Rec.attrfn('row')
recf = z3.Function('record of', RT.sort(), Row.sort(), Rec.sort())
Recs = TSeq(Rec)


def construct_record(E, o, a, k):
    if len(a) == 1 and isinstance(a[0], StarSym):
        return Sym(Rec, recf(o.e, E.z(E.new_list(a[0].seq), Row)))
    return Sym(Rec, recf(o.e, E.z(E.new_list(a), Row)))


RT.hooks = {'call': construct_record}
Rec.hooks = {'type': lambda E, o: E.getattr(o, 'type'),
             'iter': lambda E, o: E.getattr(o, 'row')}
Csv = TObj('CsvFile', attrs={'name': TStr})
csvf = z3.Function('csv file', S, Csv.sort())
Writer = TObj('CsvWriter', attrs={'file': Csv})
Csv.hooks['notnone'] = Writer.hooks['notnone'] = True
writerf = z3.Function('writer on', Csv.sort(), Writer.sort())
TABLES = TMap(TStr, Rows)


def setup_csv(E):
    """an archive whose files are lists of rows (csv.reader gives back what
    csv.writer has written)"""
    def writer(E, a, k):
        f = E.z(a[0], Csv)
        if k or len(a) != 1:
            raise Unsupported('csv dialect')
        w = writerf(f)
        E.assume(Writer.attrfn('file')(w) == f)
        return Sym(Writer, w)

    def writerow(E, o, a, k):
        f = E.getattr(E.getattr(o, 'file'), 'name')
        row = rowf(a[0].e) if isinstance(a[0], Sym) and a[0].t is Rec else \
            E.z(a[0], Row)
        rows = E.getitem(E.tables, f)
        E.setitem(E.tables, f, Sym(Rows, z3.simplify(Rows.rawsnoc(
            E.z(rows, Rows), row))))
    Writer.meths = {'writerow': writerow}

    def reader(E, a, k):
        if k or len(a) != 1:
            raise Unsupported('csv dialect')
        f = E.z(a[0], Csv)
        name = Sym(TStr, f.arg(0)) if f.decl().eq(csvf) else E.getattr(
            a[0], 'name')
        rows = E.content(E.getitem(E.tables, name))
        if isinstance(rows, Sym):
            rows = Sym(Rows, z3.simplify(rows.e))
        return E.alloc(HGen(None, rows))
    E.externals['csv.writer'] = writer
    E.externals['csv.reader'] = reader

    def open_(E, o, a, k):
        name = E.z(a[0], TStr)
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode in WRITE:
            E.setitem(E.tables, a[0], Sym(Rows, Rows.nil))
        elif mode in READ:
            if not E.branch(E.contains(a[0], E.tables)):
                raise PyExc(E.mkexc(E.lookup_path(
                    'csvmanager.NotInArchive'), (a[0],)))
        else:
            raise Unsupported('mode %r' % mode)
        f = csvf(name)
        E.assume(Csv.attrfn('name')(f) == name)
        return Sym(Csv, f)

    def close(E, o, a, k):
        E.closed = True
    ext = TObj('AnyArchive', meths={'open': open_, 'close': close}, hooks={
        'setattr': lambda E, o, a, v: None})
    E.closed = False
    E.modules.pop('openquake.commonlib.csvmanager', None)
    E.lookup_path('csvmanager.Archive')
    return E.const('archive', ext)


def fname(prefix, t):
    return z3.Concat(prefix.e, V('__'), RT.attrfn('__name__')(t), V('.csv'))


def t_records(header):
    def t(E):
        """writing any records in any order: one file per record type with
        its rows in order, after the field names"""
        A = setup_csv(E)
        recs, prefix = E.const('records', Recs), E.const('prefix', TStr)
        tt, b = z3.Const('tt', RT.sort()), E.const('b', TStr)
        mine = E.add_fold(Fold(
            'rows of the type', Rec, Rows, Rows.nil, lambda a, x, p: z3.If(
                typef(x) == tt, Rows.rawsnoc(a, rowf(x)), a)))
        some = E.add_fold(Fold(
            'some of the type', Rec, TBool, F, lambda a, x, p: z3.Or(
                a, typef(x) == tt)))
        its = E.add_fold(Fold(
            'is a file of theirs', Rec, TBool, F, lambda a, x, p: z3.Or(
                a, b.e == fname(prefix, typef(x)))))
        own = E.induct('the file of a type is theirs', Recs, lambda s:
                       z3.Implies(z3.And(some(s), b.e == fname(prefix, tt)),
                                  its(s)))
        none = E.induct('no rows of other types', Recs, lambda s: z3.Implies(
            z3.Not(some(s)), mine(s) == Rows.nil))
        head = Rows.rawsnoc(Rows.nil, RT.attrfn('fieldnames')(tt)) \
            if header else Rows.nil
        T0 = E.const('tables', TABLES)
        here = fname(prefix, tt)
        W = TMap(RT, Writer)
        CF = TMap(RT, Csv)

        def split(E, seq, p, x, rest):
            if seq.t == Recs:
                n = RT.attrfn('__name__')
                E.assume((n(typef(x)) == n(tt)) == (typef(x) == tt))
                E.assume((fname(prefix, typef(x)) == here) == (
                    typef(x) == tt))
                E.assume(z3.And(none(p), own(p)))
        E.split_hooks.append(split)

        def each(m, claim):
            t = z3.Const('any type', RT.sort())
            return z3.ForAll([t], z3.Implies(z3.Select(W.has(m), t),
                                             claim(t)),
                             patterns=[z3.Select(W.has(m), t)])

        def on_file(w, t):
            f = csvf(fname(prefix, t))
            return z3.And(w == writerf(f), Writer.attrfn('file')(w) == f,
                          Csv.attrfn('name')(f) == fname(prefix, t))

        def tmpl(E, seq, L0, node):
            out = []
            if seq is None or seq.t != Recs:
                return out
            for m, (lt, e) in L0.items():
                if lt == W:
                    tabs = [n for n, (ty, _) in L0.items() if ty == TABLES]
                    out += [
                        ('%s: a writer for each type so far' % m, lambda p,
                         L, m=m: z3.Select(W.has(L[m][1]), tt) == some(p)),
                        ('%s: each on its own file' % m, lambda p, L, m=m:
                         each(L[m][1], lambda t: on_file(z3.Select(
                             W.val(L[m][1]), t), t))),
                        ('%s: one of their files' % m, lambda p, L, m=m:
                         each(L[m][1], lambda t: z3.Implies(
                             b.e == fname(prefix, t), its(p))))] + [
                        ('%s: each file exists' % m, lambda p, L, m=m, n=n:
                         each(L[m][1], lambda t: z3.Select(TABLES.has(
                             L[n][1]), fname(prefix, t)))) for n in tabs]
                elif lt == TABLES:
                    out += [
                        ('the file of the type exists', lambda p, L, m=m,
                         e=e: z3.Implies(some(p), z3.Select(TABLES.has(
                             L[m][1]), here))),
                        ('with the rows so far', lambda p, L, m=m:
                         z3.Implies(some(p), z3.Select(TABLES.val(
                             L[m][1]), here) == E.cat(Rows, head,
                                                      mine(p)))),
                        ('no other file', lambda p, L, m=m, e=e: z3.Select(
                            TABLES.has(L[m][1]), b.e) == z3.Or(z3.Select(
                                TABLES.has(e), b.e), its(p))),
                        ('other files are as they were', lambda p, L, m=m,
                         e=e: z3.Implies(z3.Not(its(p)), z3.Select(
                             TABLES.val(L[m][1]), b.e) == z3.Select(
                                 TABLES.val(e), b.e)))]
            return out
        E.templates.append(tmpl)

        def run():
            E.reg(Recs, recs.e)
            E.closed = False
            E.tables = sym_dict(E, T0)
            man = E.call(E.lookup_path('csvmanager.CSVManager'),
                         [A, prefix, header])
            within = E.choose(2)
            if within:
                r = E.call(E.getattr(man, '__enter__'), [])
                E.prove('entering gives the manager', r == man)
            put_all(E, recs, lambda x: E.call(E.getattr(man, 'write'), [x]))
            if within:
                r = E.call(E.getattr(man, '__exit__'), [None, None, None])
                E.prove('leaving closes the archive', E.closed)
                E.prove('errors go on', r in (None, False))
            tab = E.z(E.tables, TABLES)
            E.prove('a file for the type', z3.Implies(
                some(recs.e), z3.Select(TABLES.has(tab), here)))
            E.prove('with its rows in order', z3.Implies(
                some(recs.e), z3.Select(TABLES.val(tab), here) ==
                E.cat(Rows, head, mine(recs.e))))
            E.prove('no other file', z3.Select(TABLES.has(tab), b.e) ==
                    z3.Or(z3.Select(TABLES.has(T0.e), b.e), its(recs.e)))
            E.prove('no other file is changed', z3.Implies(z3.Not(
                its(recs.e)), z3.Select(TABLES.val(tab), b.e) ==
                z3.Select(TABLES.val(T0.e), b.e)))
            reach(E, 'end')
        return run
    return t


def t_read(header):
    def t(E):
        """reading gives the records of the rows, in order; a file with
        another header is refused"""
        A = setup_csv(E)
        prefix, tt = E.const('prefix', TStr), E.const('tt', RT)
        all_ = E.const('rows', Rows)
        T0 = E.const('tables', TABLES)
        here = fname(prefix, tt.e)
        made = E.add_fold(Fold('records of the rows', Row, Recs, Recs.nil,
                               lambda a, x, p: Recs.rawsnoc(
                                   a, recf(tt.e, x))))

        def run():
            E.reg(Rows, all_.e)
            rows, want, right = all_.e, made(all_.e), T
            if E.branch(rows == Rows.nil):
                want = Recs.nil
            elif header:
                first, rest = E.uncons(all_)
                E.reg(Rows, rest.e)
                want = made(rest.e)
                right = E.z(first, Row) == RT.attrfn('fieldnames')(tt.e)
            t0 = TABLES.mk(TABLES.has(T0.e), z3.Store(
                TABLES.val(T0.e), here, rows))
            there = E.branch(z3.Select(TABLES.has(T0.e), here))
            E.tables = sym_dict(E, Sym(TABLES, t0))
            man = E.call(E.lookup_path('csvmanager.CSVManager'),
                         [A, prefix, header])
            if E.choose(2):
                E.call(E.getattr(man, '__enter__'), [])
            r, exc = attempt(E, lambda: E.call(E.builtins['list'], [
                E.call(E.getattr(man, 'read'), [tt])]))
            if exc is not None:
                if not there:
                    E.prove('a missing file is reported', exc_is(
                        E, exc, 'csvmanager.NotInArchive'))
                    reach(E, 'missing')
                    return
                E.prove('only another header is refused', z3.Not(right))
                E.prove('refused with InvalidFile', E.exc_matches(
                    exc.value, ExtV('openquake.nrmllib.InvalidFile')))
                reach(E, 'refused')
                return
            E.prove('a missing file is not read', there)
            E.prove('another header is refused', right)
            E.prove('the records of the rows, in order',
                    E.z(r, Recs) == want)
            reach(E, 'read')
        return run
    return t


def t_same(E):
    """the records made of the rows of records of a type are those records"""
    tt = z3.Const('tt', RT.sort())
    mine = E.add_fold(Fold(
        'rows of the type', Rec, Rows, Rows.nil, lambda a, x, p: z3.If(
            typef(x) == tt, Rows.rawsnoc(a, rowf(x)), a)))
    them = E.add_fold(Fold(
        'records of the type', Rec, Recs, Recs.nil, lambda a, x, p: z3.If(
            typef(x) == tt, Recs.rawsnoc(a, x), a)))
    made = E.add_fold(Fold('records of the rows', Row, Recs, Recs.nil,
                           lambda a, x, p: Recs.rawsnoc(a, recf(tt, x))))

    def run():
        E.induct('what is read is what was written', Recs, lambda s:
                 made(mine(s)) == them(s),
                 # a record is made of its row (C10)
                 lambda p, x: recf(typef(x), rowf(x)) == x)
        reach(E, 'end')
    return run


# --- groups of files: one manager for each prefix
Man = TObj('Manager', mut={'_alive': TBool, 'prefix': TStr,
                           'has_header': TBool, '_conv': TStr})
MANS = TMap(TStr, Man)
Conv = TObj('AnyConverter', attrs={'__name__': TStr})
Conv.hooks['notnone'] = True
Conv.hooks['truth'] = yes = lambda E, o: True
RTs = TSeq(RT)


def m_state(E, m, a):
    return z3.Select(E.array(Man, a), m)


def m_put(E, m, a, v):
    E.st.arrays[(Man.name, a)] = z3.Store(E.array(Man, a), m, v)


def managers_of(E, A):
    """new managers are objects unlike any before"""
    cls = E.lookup_path('csvmanager.CSVManager')

    def get(E, o, a):
        py = E.st.ghost.get(('uncons', 'attr', z3.simplify(o.e).sexpr(), a))
        if py is not None:
            return py[0]
        if a == 'archive':
            return A
        if a in ('prefix', 'has_header'):
            return Sym(Man.mut[a], m_state(E, o.e, a))
        f, owner = cls.lookup(a)
        if isinstance(f, FuncV):
            return BoundV(o, f)
        raise Unsupported('attribute %s of a manager' % a)

    def set_(E, o, a, v):
        if a == 'archive':
            E.prove('the manager works on the archive', v is A or
                    isinstance(v, Sym) and v.e.eq(A.e))
        elif a == 'convertertype':
            if not isinstance(v, ClassV):
                raise Unsupported('not a converter')
            m_put(E, o.e, '_conv', V(v.name))
        elif a in ('prefix', 'has_header'):
            m_put(E, o.e, a, E.z(v, Man.mut[a]))
        else:
            E.st.ghost[('uncons', 'attr', z3.simplify(o.e).sexpr(), a)] = (
                v,)
    Man.hooks = {'getattr': get, 'setattr': set_, 'eq': same,
                 'type': lambda E, o: cls, 'truth': yes, 'notnone': True}

    def new_man(E, c, a, k):
        m = E.fresh('manager', Man)
        E.assume(z3.Not(m_state(E, m.e, '_alive')))
        m_put(E, m.e, '_alive', T)
        m_put(E, m.e, '_conv', V(''))
        E.call(BoundV(m, cls.lookup('__init__')[0]), a, k)
        return m
    return cls, new_man


def no_attr(E, o, a):
    E.raise_('AttributeError', a)


OTHER = TObj('Imported', hooks={
    'isinstance': lambda E, o, c: False, 'getattr': no_attr,
    'notnone': True, 'truth': yes})


def t_groups(E):
    """one manager per prefix, with the converter of its first file"""
    A = setup_csv(E)
    A.t.meths['extract_filenames'] = lambda E, o, a, k: E.new_list(
        listed if not a and not k else E.const('some names', Strs))
    listed = E.const('listed', Strs)
    b = E.const('b', TStr)
    nparts = z3.Function('number of parts', S, z3.IntSort())
    part = [z3.Function('part %d' % i, S, S) for i in range(2)]
    meta = E.lookup_path('record.MetaRecord')
    base = E.lookup_path('record.Record')
    env = E.lookup_path('records.Record') and E.modules[
        'openquake.commonlib.records'].env
    types, others = {}, {}
    for n, v in env.items():
        if isinstance(v, ClassV) and v.issub(base):
            if v is not base:
                types[n] = v
        elif n[:2] != '__':
            others[n] = v
    OS = TOpt(TStr)

    def convname(stem):
        e = OS.none
        for n, v in sorted(types.items()):
            e = z3.If(stem == V(n), OS.some(V(E.getattr(
                v, 'convertername'))), e)
        return e

    def conv(f):
        x = part[1](f)
        return z3.If(z3.And(nparts(f) == 2, z3.SuffixOf(V('.csv'), x)),
                     convname(z3.SubString(x, 0, z3.Length(x) - 4)),
                     OS.none)
    first = E.add_fold(Fold(
        'converter of the prefix', TStr, OS, OS.none, lambda a, x, p: z3.If(
            z3.And(OS.is_none(a), part[0](x) == b.e), conv(x), a)))
    names = E.const('names', Strs)
    header = E.const('header', TBool)
    own = E.const('own prefix', TStr)

    def split(E, o, args):
        E.prove('names are split at the double underscore',
                args == ['__'])
        n = nparts(o.e)
        E.assume(n >= 1)
        if E.branch(n == 2):
            return E.new_list([Sym(TStr, part[0](o.e)),
                               Sym(TStr, part[1](o.e))])
        if E.branch(n == 1):
            return E.new_list([o])
        more = E.fresh('parts', Strs)
        e = more.e
        for x in 'xyz':
            e = Strs.rawsnoc(e, E.fresh(x, TStr).e)
        E.reg(Strs, e)
        E.assume(E.len(Strs, e) == n)
        return E.new_list(Sym(Strs, e))

    def named(E, o, a):
        if not isinstance(o, ModuleV) or not o.name.endswith('records'):
            return None
        e = E.z(a, TStr)
        # the base class is no record type of a converter
        E.assume(e != V('Record'))
        for n, v in sorted(types.items()):
            if E.branch(e == V(n)):
                return v
        for n, v in sorted(others.items()):
            if E.branch(e == V(n)):
                return v if isinstance(v, ClassV) else E.const(
                    'imported', OTHER)
        E.raise_('AttributeError', a)

    def order(E, c, key, reverse):
        E.prove('the names are sorted', isinstance(c, Sym) and
                c.e.eq(listed.e) and key is None and not reverse)
        return E.new_list(names)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != Strs:
            return []
        out = []
        arr = dict((a, [n for n in L0 if n.endswith('Manager.' + a)])
                   for a in Man.mut)
        for m, (lt, e) in L0.items():
            if lt != MANS:
                continue
            out.append(('%s has the prefixes so far' % m, lambda p, L, m=m:
                        z3.Select(MANS.has(L[m][1]), b.e) == z3.Not(
                            OS.is_none(first(p)))))
            if not all(arr.values()):
                continue

            def rest(p, L, m=m):
                x = z3.Select(MANS.val(L[m][1]), b.e)
                at = lambda a: z3.Select(L[arr[a][0]][1], x)
                return z3.Implies(z3.Not(OS.is_none(first(p))), z3.And(
                    at('_alive'), at('prefix') == b.e,
                    at('has_header') == header.e,
                    at('_conv') == OS.val(first(p))))
            out.append(('%s has their managers' % m, rest))
        return out
    E.templates.append(tmpl)

    def run():
        E.reg(Strs, names.e)
        E.construct.pop('CSVManager', None)
        cls, new_man = managers_of(E, A)
        man = E.call(cls, [A, own, header])
        E.construct['CSVManager'] = new_man
        got = []
        E.externals['str.split'] = split
        E.externals['getattr_sym'] = named
        E.externals['inspect.isclass'] = lambda E, a, k: isinstance(
            a[0], ClassV)
        E.externals['sorted'] = order
        E.value_types = {}

        def values(E, o, h):
            got.append(h)
            return E.new_list([])
        E.externals['dict.values'] = values
        r = E.call(E.getattr(man, '_getmanagers'), [])
        if not got:
            E.prove('no managers', OS.is_none(first(names.e)))
            reach(E, 'none')
            return
        m = got[-1].m
        want = first(names.e)
        E.prove('a manager for the prefixes of the files', z3.Select(
            MANS.has(m.e), b.e) == z3.Not(OS.is_none(want)))
        x = z3.Select(MANS.val(m.e), b.e)
        some = z3.Not(OS.is_none(want))
        for a, v in (('prefix', b.e), ('has_header', header.e),
                     ('_conv', OS.val(want))):
            E.prove('%s of the manager' % a.strip('_'), z3.Implies(
                some, m_state(E, x, a) == v))
        reach(E, 'some')
    return run


def t_converter(E):
    """the converter of the only manager"""
    A = setup_csv(E)
    A.t.meths['extract_filenames'] = lambda E, o, a, k: E.new_list(
        E.const('listed', Strs))
    Any = TObj('AnyManager', attrs={'convertertype': Conv})
    Mans = TSeq(Any)
    own = E.const('own prefix', TStr)
    mans = E.const('managers', Mans)
    E.nthfold(Mans)

    def run():
        E.reg(Mans, mans.e)
        E.construct.pop('CSVManager', None)
        man = E.call(E.lookup_path('csvmanager.CSVManager'), [A, own])
        n = E.len(Mans, mans.e)
        few = 0 if E.branch(n == 0) else 1 if E.branch(n == 1) else 2
        E.contracts['csvmanager.CSVManager._getmanagers'] = lambda E, a, k: \
            E.new_list(mans if few == 2 else one[:few])
        one = [E.const('the manager', Any)]
        r, exc = attempt(E, lambda: E.call(E.getattr(
            man, '_getconverter'), []))
        if few == 1:
            E.prove('no error', exc is None)
            E.prove('the converter of the manager', r.e ==
                    Any.attrfn('convertertype')(one[0].e))
            reach(E, 'one')
        else:
            E.prove('an error', exc is not None)
            E.prove('the right one', exc_is(E, exc, 'csvmanager.' + (
                'MultipleManagerError' if few else 'NotInArchive')))
            reach(E, 'many' if few else 'none')
    return run


REC = TObj('AnyRecord')
ANYS = TSeq(REC)
contentf = z3.Function('records of the file', RT.sort(), ANYS.sort())
typesf = z3.Function('record types', Conv.sort(), RTs.sort())
has5 = z3.Function('file is there', S, z3.BoolSort())
goodf = z3.Function('has its header', RT.sort(), z3.BoolSort())


def t_tableset(E):
    """the records of the files of the record types of the converter, in
    order; missing files are skipped, other errors are not hidden"""
    A = setup_csv(E)
    A.t.hooks['contains'] = lambda E, o, x: Sym(TBool, has5(E.z(x, TStr)))
    own = E.const('own prefix', TStr)
    conv = E.const('converter', Conv)

    def theref(rt):
        return has5(fname(own, rt))
    Conv.meths['recordtypes'] = lambda E, o, a, k: E.new_list(
        Sym(RTs, typesf(o.e)))
    want = E.add_fold(Fold(
        'records read', RT, ANYS, ANYS.nil, lambda a, x, p: z3.If(
            theref(x), E.cat(ANYS, a, contentf(x)), a)))
    bad = E.add_fold(Fold(
        'some file is wrong', RT, TBool, F, lambda a, x, p: z3.Or(
            a, z3.And(theref(x), z3.Not(goodf(x))))))
    one = TObj('WrongHeader')

    def iterate(E, o):
        rt = o.e.arg(0)
        if not E.branch(theref(rt)):
            raise PyExc(E.mkexc(E.lookup_path('csvmanager.NotInArchive'),
                                ('missing',)))
        if not E.branch(goodf(rt)):
            E.raise_('EnvironmentError', 'wrong header')
        return Sym(ANYS, contentf(rt))
    It = TObj('Reading', hooks={'iter': iterate, 'truth': yes,
                                'notnone': True})
    itf = z3.Function('reading', RT.sort(), It.sort())
    types = typesf(conv.e)

    def read(E, a, k):
        E.used_contracts.add('CSVManager.read')
        return Sym(It, itf(E.z(a[1], RT)))

    def insert_all(E, o, a, k):
        E.used_contracts.add('TableSet.insert_all')
        c = iterate(E, a[0]) if isinstance(a[0], Sym) and \
            a[0].t is It else Sym(ANYS, E.z(a[0], ANYS))
        E.setattr(o, 'inserted', Sym(ANYS, E.cat(ANYS, E.z(E.getattr(
            o, 'inserted'), ANYS), c.e)))

    def insert(E, o, a, k):
        E.setattr(o, 'inserted', Sym(ANYS, ANYS.rawsnoc(E.z(E.getattr(
            o, 'inserted'), ANYS), E.z(a[0], REC))))
    TS = TObj('AnyTableSet', attrs={'convertertype': Conv}, mut={
        'inserted': ANYS}, meths={'insert_all': insert_all,
                                  'insert': insert},
        hooks={'truth': yes, 'notnone': True})

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t not in (RTs, ANYS):
            return []
        out = []
        if seq.t == RTs:
            out.append(('no wrong file so far', lambda p, L: z3.Not(bad(p))))
        for n, (ty, e) in L0.items():
            if n.endswith('AnyTableSet.inserted'):
                ts = E.made[-1].e
                if seq.t == RTs:
                    out.append(('the records so far', lambda p, L, n=n:
                                z3.Select(L[n][1], ts) == want(p)))
                else:
                    out.append(('the records of the file so far', lambda p,
                                L, n=n, e=e: z3.Select(L[n][1], ts) ==
                                E.cat(ANYS, z3.Select(e, ts), p)))
        return out
    E.templates.append(tmpl)
    E.induct('a wrong file stays', RTs, lambda s: T)
    r0 = z3.Const('types so far', RTs.sort())
    stays = E.induct('a wrong file is not forgotten', RTs, lambda s:
                     z3.Implies(bad(r0), bad(E.cat(RTs, r0, s))))

    def split(E, seq, p, x, rest):
        if seq.t == RTs:
            px = RTs.rawsnoc(p, x)
            E.assume(z3.Implies(bad(px), bad(seq.e)))
    E.split_hooks.append(split)

    def run():
        E.reg(RTs, types)
        E.construct.pop('CSVManager', None)
        man = E.call(E.lookup_path('csvmanager.CSVManager'), [A, own])
        E.made = []

        def new(E, c, a, k):
            ts = E.fresh('table set', TS)
            E.made.append(ts)
            E.prove('a table set of the converter', E.eq((
                a + list(k.values()))[0], conv))
            E.assume(TS.attrfn('convertertype')(ts.e) == conv.e)
            E.setattr(ts, 'inserted', Sym(ANYS, ANYS.nil))
            return ts
        E.construct['TableSet'] = new
        E.contracts['csvmanager.CSVManager._getconverter'] = \
            lambda E, a, k: conv
        E.contracts['csvmanager.CSVManager.read'] = read
        r, exc = attempt(E, lambda: E.call(E.getattr(
            man, 'get_tableset'), []))
        if exc is not None:
            E.prove('only for a wrong file', bad(types))
            E.prove('the error is not hidden',
                    is_exc(E, exc, 'EnvironmentError'))
            reach(E, 'refused')
            return
        E.prove('one table set', len(E.made) == 1 and r.e.eq(E.made[0].e))
        E.prove('no wrong file is accepted', z3.Not(bad(types)))
        E.prove('the records of the files, in order', E.z(E.getattr(
            r, 'inserted'), ANYS) == want(types))
        reach(E, 'read')
    return run


ERR = TObj('Invalid', mut={'_named': TBool})
ERRS = TSeq(ERR)
ownf = z3.Function('file of the record', ERR.sort(), S)
Any5 = TObj('OneManager', attrs={'prefix': TStr, 'convertertype': Conv})
Anys5 = TSeq(Any5)
invf = z3.Function('invalid records', Any5.sort(), RT.sort(), ERRS.sort())


def t_invalid(E):
    """the invalid records of the files of every manager, each named"""
    A = setup_csv(E)
    A.t.hooks['contains'] = lambda E, o, x: Sym(TBool, has5(E.z(x, TStr)))
    own = E.const('own prefix', TStr)
    Conv.meths['recordtypes'] = lambda E, o, a, k: E.new_list(
        Sym(RTs, typesf(o.e)))

    def name(m, rt):
        return z3.Concat(Any5.attrfn('prefix')(m), V('__'),
                         RT.attrfn('__name__')(rt), V('.csv'))
    cur = z3.Const('the manager', Any5.sort())
    inner = E.add_fold(Fold(
        'invalid records of the manager', RT, ERRS, ERRS.nil,
        lambda a, x, p, m: z3.If(has5(name(m, x)), E.cat(
            ERRS, a, invf(m, x)), a), params=[Any5]))
    outer = E.add_fold(Fold(
        'invalid records of the managers', Any5, ERRS, ERRS.nil,
        lambda a, x, p: E.cat(ERRS, a, inner(typesf(
            Any5.attrfn('convertertype')(x)), x))))
    mans = E.const('managers', Anys5)

    def iterate(E, o):
        m, rt = o.e.arg(0), o.e.arg(1)
        if not E.branch(has5(name(m, rt))):
            raise PyExc(E.mkexc(E.lookup_path('csvmanager.NotInArchive'),
                                ('missing',)))
        return Sym(ERRS, invf(m, rt))
    It = TObj('Search', hooks={'iter': iterate, 'truth': yes,
                               'notnone': True})
    itf = z3.Function('search', Any5.sort(), RT.sort(), It.sort())
    RD = TObj('Reading5', hooks={'truth': yes, 'notnone': True})
    rdf = z3.Function('reading of', Any5.sort(), RT.sort(), RD.sort())
    Any5.meths['read'] = lambda E, o, a, k: Sym(RD, rdf(
        o.e, E.z(a[0], RT)))
    cls = E.lookup_path('csvmanager.CSVManager')

    def attr(E, o, a):
        if a == 'archive':
            return A
        f, owner = cls.lookup(a)
        if isinstance(f, FuncV):
            return BoundV(o, f)
        raise Unsupported('attribute %s of a manager' % a)
    Any5.hooks.update({'truth': yes, 'notnone': True, 'getattr': attr})

    def find(E, a, k):
        E.used_contracts.add('record.find_invalid')
        x = a[0].e
        return Sym(It, itf(x.arg(0), x.arg(1)))

    def named(E, o, a, v):
        if a != 'fname':
            raise Unsupported('attribute ' + a)
        E.prove('the name of its file', E.z(v, TStr) == ownf(o.e))
        E.setattr(o, '_named', True)
    ERR.hooks = {'setattr': named, 'truth': yes, 'notnone': True}

    def split(E, seq, p, x, rest):
        if seq.t == ERRS and seq.e.decl().eq(invf):
            E.assume(ownf(x) == name(seq.e.arg(0), seq.e.arg(1)))
        if seq.t == Anys5:
            inner.insts = [(x,)]
    E.split_hooks.append(split)

    def tmpl(E, seq, L0, node):
        if seq is None:
            return []
        out = []
        for n, (ty, e) in L0.items():
            if ty != ERRS:
                continue
            if seq.t == ERRS:
                out.append(('%s: so far in the file' % n, lambda p, L, n=n,
                            e=e: L[n][1] == E.cat(ERRS, e, p)))
            elif seq.t == RTs:
                m = inner.insts[0][0]
                out.append(('%s: so far in the manager' % n, lambda p, L,
                            n=n, e=e: L[n][1] == E.cat(ERRS, e, inner(
                                p, m))))
            elif seq.t == Anys5:
                out.append(('%s: so far' % n, lambda p, L, n=n, e=e:
                            L[n][1] == outer(p)))
        return out
    E.templates.append(tmpl)
    inner.insts = [(cur,)]

    def run():
        E.reg(Anys5, mans.e)
        E.construct.pop('CSVManager', None)
        man = E.call(E.lookup_path('csvmanager.CSVManager'), [A, own])
        E.contracts['csvmanager.CSVManager._getmanagers'] = \
            lambda E, a, k: E.new_list(mans)
        E.contracts['record.find_invalid'] = find
        out = E.new_list(Sym(ERRS, ERRS.nil))

        def body(x):
            E.prove('the error has the name of its file',
                    E.getattr(x, '_named'))
            E.call(E.getattr(out, 'append'), [x])
        consume(E, E.call(E.getattr(man, '_find_invalid'), []), body)
        E.prove('the invalid records of every file, in order',
                E.z(out, ERRS) == outer(mans.e))
        reach(E, 'end')
    return run


def t_limit(E):
    """all the invalid records, or the first ones up to the limit"""
    A = setup_csv(E)
    own = E.const('own prefix', TStr)
    ERR.hooks = {'truth': yes, 'notnone': True}
    zs = []
    n = E.const('limit', TInt)
    IP = TTup(TInt, ERR)
    IPS = TSeq(IP)
    take = E.add_fold(Fold(
        'first ones', ERR, ERRS, ERRS.nil, lambda a, x, p: z3.If(
            E.len(ERRS, p) < n.e, ERRS.rawsnoc(a, x), a)))
    second = E.add_fold(Fold(
        'without numbers', IP, ERRS, ERRS.nil,
        lambda a, x, p: ERRS.rawsnoc(a, IP.get(x, 1))))
    errs, k = E.const('errors', ERRS), E.const('k', TInt)
    NS = TSeq(TNone)
    nth = E.nthfold(ERRS)
    counted = E.add_fold(Fold(
        'as many numbered', TNone, IPS, IPS.nil, lambda a, x, p:
        IPS.rawsnoc(a, IP.mk(E.len(NS, p), nth(errs.e, E.len(NS, p))))))
    same = E.induct('the numbers do not matter', NS, lambda s: z3.And(
        E.len(ERRS, second(counted(s))) == E.len(NS, s),
        z3.Implies(z3.And(k.e >= 0, k.e < E.len(NS, s)),
                   nth(second(counted(s)), k.e) == nth(errs.e, k.e))))
    taken = E.induct('the first ones are those', ERRS, lambda s: z3.And(
        z3.Implies(n.e >= 0, E.len(ERRS, take(s)) == z3.If(
            E.len(ERRS, s) < n.e, E.len(ERRS, s), n.e)),
        z3.Implies(z3.And(k.e >= 0, k.e < n.e, k.e < E.len(ERRS, s)),
                   nth(take(s), k.e) == nth(s, k.e))))
    f0 = z3.Const('front', ERRS.sort())
    E.induct('what is in front stays', ERRS, lambda s: z3.Implies(z3.And(
        k.e >= 0, k.e < E.len(ERRS, f0)), nth(E.cat(
            ERRS, f0, s), k.e) == nth(f0, k.e)))
    r0 = z3.Const('taken so far', ERRS.sort())
    E.induct('no more after the limit', ERRS, lambda s: z3.Implies(
        E.len(ERRS, r0) >= n.e, take(E.cat(ERRS, r0, s)) == take(r0)))

    def split(E, seq, p, x, rest):
        if seq.t == ERRS:
            px = ERRS.rawsnoc(p, x)
            E.assume(z3.And(taken(p), taken(px)))
            E.assume(z3.Implies(z3.And(k.e >= 0, k.e < E.len(ERRS, px)),
                                nth(seq.e, k.e) == nth(px, k.e)))
            E.assume(z3.Implies(E.len(ERRS, p) >= n.e,
                                take(seq.e) == take(p)))
            E.assume(z3.Implies(E.len(ERRS, px) >= n.e,
                                take(seq.e) == take(px)))
    E.split_hooks.append(split)

    def tmpl(E, seq, L0, node):
        if seq is None:
            return []
        out = []
        for m, (ty, e) in L0.items():
            if seq.t == ERRS and ty == ERRS:
                out.append(('%s: the first ones' % m, lambda p, L, m=m:
                            L[m][1] == take(p)))
                out.append(('not as many so far', lambda p, L:
                            E.len(ERRS, p) < n.e))
            elif seq.t == NS and ty == IPS:
                zs.append(seq.e)
                out.append(('%s: the first ones' % m, lambda p, L, m=m:
                            L[m][1] == counted(p)))
            elif seq.t == NS and ty == ERRS:
                zs.append(seq.e)
                out.append(('%s: the first ones' % m, lambda p, L, m=m:
                            L[m][1] == second(counted(p))))
            elif seq.t == IPS and ty == ERRS:
                out.append(('%s: without numbers' % m, lambda p, L, m=m:
                            L[m][1] == second(p)))
        return out
    E.templates.append(tmpl)

    def run():
        E.reg(ERRS, errs.e)
        del zs[:]
        E.construct.pop('CSVManager', None)
        man = E.call(E.lookup_path('csvmanager.CSVManager'), [A, own])
        E.contracts['csvmanager.CSVManager._find_invalid'] = \
            lambda E, a, k: E.alloc(HGen(None, errs))
        if E.choose(2):
            r = E.call(E.getattr(man, 'find_invalid'), [])
            E.prove('all of them', E.z(r, ERRS) == errs.e)
            reach(E, 'all')
            return
        E.assume(n.e >= 0)
        E.assume(taken(errs.e))

        def islice(E, a, k):
            # the first ones, by its documented meaning
            c = E.content(a[0])
            if len(a) != 2 or k or not isinstance(c, Sym) or \
                    not c.e.eq(errs.e):
                raise Unsupported('islice')
            m = E.fresh('slice', ERRS).e
            size = E.len(ERRS, errs.e)
            if a[1] is None:
                return E.new_list(errs)
            l = E.z(a[1], TInt)
            E.assume(z3.And(E.len(ERRS, m) == z3.If(
                l < size, l, size), z3.Implies(
                    z3.And(k_.e >= 0, k_.e < l, k_.e < size),
                    nth(m, k_.e) == nth(errs.e, k_.e))))
            return E.new_list(Sym(ERRS, m))
        k_ = k
        E.externals['itertools.islice'] = islice
        r = E.call(E.getattr(man, 'find_invalid'), [n])
        for z in zs:
            E.assume(same(z))
        e, size = E.z(r, ERRS), E.len(ERRS, errs.e)
        E.prove('as many as the limit', E.len(ERRS, e) == z3.If(
            n.e < size, n.e, size))
        E.prove('the first ones', z3.Implies(z3.And(
            k.e >= 0, k.e < n.e, k.e < size), nth(e, k.e) == nth(
                errs.e, k.e)))
        reach(E, 'some')
    return run


def t_from_node(E):
    """converting a model writes its records with the manager of the prefix"""
    A = setup_csv(E)
    recs = E.const('records', Recs)
    own, prefix = E.const('own prefix', TStr), E.const('prefix', TStr)
    header = E.const('header', TBool)
    Model = TObj('Model')
    node = E.const('model', Model)

    def node_to_records(E, o, a, k):
        E.prove('the records of the model', len(a) == 1 and
                a[0].e.eq(node.e))
        return E.new_list(recs)
    Made = TObj('MadeConverter', meths={'node_to_records': node_to_records},
                hooks={'truth': yes, 'notnone': True})

    def made(E, a, k):
        E.used_contracts.add('Converter.from_node')
        E.prove('the converter of the model', a[-1].e.eq(node.e))
        if bad and E.branch(z3.Const('invalid', z3.BoolSort())):
            E.raise_('ValueError', 'an invalid model')
        return E.const('converter', Made)
    bad = []

    def run():
        E.reg(Recs, recs.e)
        E.closed = False
        cls = E.lookup_path('csvmanager.CSVManager')
        E.contracts.pop('csvmanager.CSVManager.write', None)
        man = E.call(cls, [A, own, header])
        given = E.choose(2)
        invalid = E.choose(2)
        bad[:] = [1] * invalid
        E.contracts['converter.Converter.from_node'] = made
        out = E.new_list(Sym(Recs, Recs.nil))
        writers = []

        def write(E, a, k):
            E.used_contracts.add('CSVManager.write')
            writers.append(a[0])
            E.prove('the archive is open', not E.closed)
            E.prove('written by the manager of the prefix', z3.And(
                E.z(E.getattr(a[0], 'prefix'), TStr) ==
                (prefix.e if given else own.e),
                E.z(E.getattr(a[0], 'has_header'), TBool) == header.e))
            E.call(E.getattr(out, 'append'), [a[1]])
        E.contracts['csvmanager.CSVManager.write'] = write
        r, exc = attempt(E, lambda: E.call(E.getattr(
            man, 'convert_from_node'), [node] + [prefix] * given))
        if exc is not None:
            E.prove('only an invalid model is refused', bad and is_exc(
                E, exc, 'ValueError'))
            E.prove('nothing is written', E.z(out, Recs) == Recs.nil)
            reach(E, 'refused')
            return
        E.prove('every record of the model is written once, in order',
                E.z(out, Recs) == recs.e)
        E.prove('the archive is closed', E.closed)
        E.prove('the manager that wrote them is returned', z3.And(
            E.z(E.getattr(r, 'prefix'), TStr) == (
                prefix.e if given else own.e),
            E.z(E.getattr(r, 'has_header'), TBool) == header.e))
        E.prove('on the same archive', E.getattr(r, 'archive').e.eq(A.e))
        if not given:
            E.prove('the manager itself', r == man)
        reach(E, 'written')
    return run


KINDS = [('vulnerabilityModel', None, 'Vulnerability'),
         ('fragilityModel', 'discrete', 'FragilityDiscrete'),
         ('fragilityModel', 'continuous', 'FragilityContinuous'),
         ('exposureModel', None, 'Exposure'),
         ('gmfCollection', None, 'GmfCollection'),
         ('gmfSet', None, 'GmfCollection')]


def t_kinds(E):
    """the converter of a model is that of its kind, with its records"""
    Model = TObj('Model6', attrs={})
    Made = TSeq(TObj('AnyRecord6'))
    recs = E.const('records', Made)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != Made:
            return []
        return [('the records so far', lambda p, L, n=n: z3.Select(
            L[n][1], z3.Const('table set', ty.domain())) == p)
            for n, (_, e) in L0.items() if n.endswith('TableSet6.inserted')
            for ty in [e.sort()]]
    E.templates.append(tmpl)

    def run():
        for c in ('TableSet',):
            E.construct.pop(c, None)
        tag, fmt, want = KINDS[E.choose(len(KINDS))]
        att = {'x': E.const('x', TStr)}
        if fmt:
            att['format'] = fmt
        attrib = E.alloc(HDict(att))
        Model.hooks = {
            'getattr': lambda E, o, a: tag if a == 'tag' else attrib
            if a == 'attrib' else E.raise_('AttributeError', a),
            'getitem': lambda E, o, k: E.getitem(attrib, k),
            'truth': yes, 'notnone': True}
        node = E.const('model', Model)
        log = []

        def to_records(E, a, k):
            E.prove('the records of the model', a[-1].e.eq(node.e))
            log.append(a[0] if isinstance(a[0], ClassV) else None)
            return E.new_list(recs)
        for c in set(w for _, _, w in KINDS):
            E.contracts['converter.%s.node_to_records' % c] = \
                lambda E, a, k, c=c: (cs.append(c), to_records(E, a, k))[1]
        cs, made = [], []

        def insert_all(E, o, a, k):
            E.prove('the records of the model are inserted', E.z(
                a[0], Made) == recs.e)
            made.append('filled')

        def insert(E, o, a, k):
            one.append(a[0])
            s = E.getattr(o, 'inserted')
            E.setattr(o, 'inserted', Sym(Made, Made.rawsnoc(
                E.z(s, Made), a[0].e)))
        one = []

        TS = TObj('TableSet6', meths={
            'insert_all': insert_all, 'insert': insert},
                  mut={'inserted': Made}, hooks={'truth': yes, 'notnone': True})

        def new(E, c, a, k):
            made.append((a + list(k.values()))[0])
            ts = E.const('table set', TS)
            E.setattr(ts, 'inserted', Sym(Made, Made.nil))
            return ts
        E.construct['TableSet'] = new
        r = E.call(E.getattr(E.lookup_path('converter.Converter'),
                             'from_node'), [node])
        cls = E.lookup_path('converter.' + want)
        if one:
            # one by one
            E.prove('the records of the model are inserted', E.z(E.getattr(
                E.const('table set', TS), 'inserted'), Made) == recs.e)
            made.append('filled')
        E.prove('a converter of the kind of the model',
                isinstance(r, Ref) and E.h(r).cls is cls)
        E.prove('with the table set of its records', made == [
            cls, 'filled'] and cs == [want] and E.getattr(
                r, 'tableset').e.eq(z3.Const('table set', TS.sort())))
        reach(E, 'end')
    return run


TASKS = {'C15': [
    Task('%s archive: files written' % w, t_write(w), ['csvmanager'],
         covers=['read', 'missing']) for w in ('dir', 'zip', 'mem')] + [
    Task('%s archive: closing' % w, t_closing(w), ['csvmanager'],
         covers=['end']) for w in ('dir', 'zip', 'mem')] + [
    Task('wrapped files', t_wrapper, ['csvmanager'], covers=['end']),
    Task('memory archive: given files', t_mem, ['csvmanager'],
         covers=['read', 'missing'])],
    'C16': [
        Task('writing, with a header', t_records(True), ['csvmanager'],
             covers=['end']),
        Task('writing, without', t_records(False), ['csvmanager'],
             covers=['end']),
        Task('reading, with a header', t_read(True), ['csvmanager'],
             covers=['read', 'refused', 'missing']),
        Task('reading, without', t_read(False), ['csvmanager'],
             covers=['read', 'missing']),
        Task('read after write', t_same, ['csvmanager'], covers=['end'])],
    'C41': [
        Task('groups of files', t_groups, ['csvmanager', 'records'],
             covers=['some']),
        Task('the converter of an archive', t_converter, ['csvmanager'],
             covers=['none', 'one', 'many']),
        Task('the table set', t_tableset, ['csvmanager'],
             covers=['read', 'refused']),
        Task('invalid records', t_invalid, ['csvmanager'], covers=['end']),
        Task('a model as files', t_from_node, ['csvmanager', 'converter'],
             covers=['written', 'refused']),
        Task('the converter of a model', t_kinds, ['converter'],
             covers=['end']),
        Task('up to the limit', t_limit, ['csvmanager'],
             covers=['all', 'some'])]}
