"""readini.py: the parameters, inputs and sites of a job configuration."""
from .base import *     # noqa

S = z3.StringSort()
V = z3.StringVal
Pair = TTup(TStr, TStr)
Pairs = TSeq(Pair)
Strs = TSeq(TStr)
Rows = TSeq(Pair)
NAMES = TMap(TStr, TStr)
OStr = TOpt(TStr)
STRSET = TSet(TStr)
El = TObj('UncertaintyModel', attrs={'text': TStr})
Els = TSeq(El)
SUFFIX = '_file'

slash = z3.Function('folder with its slash', S, S)
dirname = z3.Function('folder of', S, S)
abspath = z3.Function('absolute path', S, S)
itemsf = z3.Function('items of section', S, Pairs.sort())
rowsf = z3.Function('rows of file', S, Rows.sort())
utype = 'uncertaintyType'


def isabs(v):
    return z3.PrefixOf(V('/'), v)


def within(base, v):
    return z3.If(isabs(v), v, z3.Concat(slash(base), v))


def meths(**fns):
    return dict((n, lambda E, o, a, k, f=f: f(E, o, *a, **k))
                for n, f in fns.items())


def bs_get(E, o, k, *d):
    if k != utype:
        raise Unsupported('attribute %s of a branch set' % k)
    return E.getattr(o, utype)


def bs_find(E, o, path, *a, **k):
    if path.lstrip('./') not in (
            'nrml:logicTreeBranch/nrml:uncertaintyModel',
            'nrml:uncertaintyModel') or path == 'nrml:uncertaintyModel' or \
            path.startswith('./nrml:uncertaintyModel'):
        raise Unsupported('path %s' % path)
    return E.new_list(Sym(Els, BS.attrfn('models')(o.e)))


BS = TObj('BranchSet', attrs={utype: TOpt(TStr), 'models': Els},
          meths=meths(get=bs_get, xpath=bs_find, findall=bs_find))
BSs = TSeq(BS)
bssf = z3.Function('branch sets of', S, BSs.sort())
bst, models = BS.attrfn(utype), BS.attrfn('models')
text = El.attrfn('text')


def tree_find(E, o, path, *a, **k):
    if path not in ('//nrml:logicTreeBranchSet',):
        raise Unsupported('path %s' % path)
    return E.new_list(Sym(BSs, bssf(E.z(E.getattr(o, 'path'), TStr))))


Tree = TObj('Tree', attrs={'path': TStr}, meths=meths(xpath=tree_find))
File = TObj('TextFile', attrs={'path': TStr}, meths=meths(
    close=lambda E, o: None, __enter__=lambda E, o: o,
    __exit__=lambda E, o, *a: None))
filef = z3.Function('file of', S, File.sort())
treef = z3.Function('tree of', S, Tree.sort())


def setup(E):
    def ext(name, f):
        E.externals[name] = f

    def s(v):
        return E.z(v, TStr)

    def join(E, a, k):
        if len(a) != 2:
            raise Unsupported('os.path.join of %d parts' % len(a))
        E.assume(z3.Implies(isabs(s(a[0])), slash(s(a[0])) != V('')))
        return Sym(TStr, within(s(a[0]), s(a[1])))

    def full(E, a, k):
        r = abspath(s(a[0]))
        E.assume(isabs(r))
        return Sym(TStr, r)

    def folder(E, a, k):
        r = dirname(s(a[0]))
        E.assume(z3.Implies(isabs(s(a[0])), isabs(r)))
        return Sym(TStr, r)
    ext('os.path.join', join)
    ext('os.path.isabs', lambda E, a, k: Sym(TBool, isabs(s(a[0]))))
    ext('os.path.abspath', full)
    ext('os.path.dirname', folder)

    def open_(E, a, k):
        if len(a) > 1 and a[1] not in ('r', 'rb', 'rU', 'U'):
            raise Unsupported('open(%r)' % a[1])
        f = filef(s(a[0]))
        E.assume(File.attrfn('path')(f) == s(a[0]))
        return Sym(File, f)
    ext('open', open_)

    def reader(E, a, k):
        if k or len(a) != 1:
            raise Unsupported('csv dialect')
        return E.new_list(Sym(Rows, rowsf(E.z(E.getattr(a[0], 'path'),
                                              TStr))))
    ext('csv.reader', reader)

    def parse(E, a, k):
        t = treef(s(a[0]))
        E.assume(Tree.attrfn('path')(t) == s(a[0]))
        return Sym(Tree, t)
    ext('lxml.etree.parse', parse)
    ext('openquake.nrmllib.PARSE_NS_MAP', None)


class Sites(object):
    """the points of a file of sites, in order"""
    def __init__(self, E):
        self.joined = z3.Function("points separated by ', '", Strs.sort(), S)
        E.externals['str.join'] = self.join
        self.points = E.add_fold(Fold(
            'points', Pair, Strs, Strs.nil, lambda a, x, p: Strs.rawsnoc(
                a, z3.Concat(Pair.get(x, 0), V(' '), Pair.get(x, 1)))))

    def join(self, E, sep, c):
        if sep != ', ':
            return None
        return Sym(TStr, self.joined(c.e))

    def wkt(self, path):
        return z3.Concat(V('MULTIPOINT('), self.joined(self.points(
            rowsf(path))), V(')'))


def t_sites(E):
    """_parse_sites_csv: the points of all rows, in order"""
    setup(E)
    P = Sites(E)
    p = E.const('path', TStr)

    def run():
        E.reg(Rows, rowsf(p.e))
        r = E.call(E.lookup_path('readini._parse_sites_csv'),
                   [E.call(E.builtins['open'], [p, 'r'])])
        E.prove('a multipoint of every row', E.eq(r, Sym(TStr, P.wkt(p.e))))
        reach(E, 'end')
    return run


class Paths(object):
    """the source model files of a logic tree, each once, sorted"""
    def __init__(self, E):
        self.E = E
        self.xx = z3.Const('xx', S)
        mem = self.mem = E.memfold(Strs)
        mem.insts = [(self.xx,)]
        ts = self.ts = E.add_fold(Fold(
            'texts', El, Strs, Strs.nil, lambda a, x, p: Strs.rawsnoc(
                a, text(x))))
        self.all = E.add_fold(Fold(
            'all texts', BS, Strs, Strs.nil, lambda a, x, p: z3.If(
                bst(x) == OStr.some(V('sourceModel')),
                E.cat(Strs, a, ts(models(x))), a)))
        # the sorted list of the texts of the tree in a file
        self.sorted = z3.Function('sorted texts of', S, Strs.sort())
        E.templates.append(self.inner)
        E.split_hooks.append(self.split)
        self.path = None
        E.externals['sorted'] = self.sort
        E.set_hooks.append(lambda E, v, s, at: at(self.xx)
                           if v.t.k == TStr else None)
        self.distinct = E.add_fold(Fold(
            'each once', TStr, TBool, T, lambda a, x, p: z3.And(
                a, z3.Not(mem(p, x)))))
        self.once = E.induct(
            'distinct as long as the next is not there yet', Strs, lambda s:
            self.distinct(s) == self.distinct(s))

    def split(self, E, seq, p, x, rest):
        if seq.t == BSs:
            E.reg(Els, models(x))

    def sort(self, E, c, key, reverse):
        if key is not None or reverse not in (False, None) or \
                c.t != Strs or self.path is None:
            return None
        want = self.all(bssf(self.path))
        E.prove('sorted: every source model file, no other', self.mem(
            c.e, self.xx) == self.mem(want, self.xx))
        if ('uncons', 'elems', c.e.sexpr()) not in E.st.ghost:
            E.prove('sorted: each once', self.distinct(c.e))
        R = self.sorted(self.path)
        E.reg(Strs, R)
        return E.new_list(Sym(Strs, R))

    def inner(self, E, seq, L0, node):
        out = []
        if seq is None or seq.t not in (BSs, Els, Strs):
            return out
        sofar = {BSs.name: self.all, Els.name: self.ts,
                 Strs.name: lambda p: p}[seq.t.name]
        for n, (lt, e) in L0.items():
            if lt == STRSET:
                out.append(('%s has the files so far' % n, lambda p, L, n=n,
                            e=e: z3.Select(L[n][1], self.xx) == z3.Or(
                                z3.Select(e, self.xx),
                                self.mem(sofar(p), self.xx))))
        return out


def t_paths(E):
    """_collect_source_model_paths: the files of the source model branch
    sets, each once, sorted"""
    setup(E)
    P = Paths(E)
    p = E.const('path', TStr)
    P.path = p.e

    def run():
        E.reg(BSs, bssf(p.e))
        r = E.call(E.lookup_path('readini._collect_source_model_paths'), [p])
        E.prove('every source model file once, sorted',
                E.z(r, Strs) == P.sorted(p.e))
        reach(E, 'end')
    return run


Source = TObj('IniFile', attrs={'name': TStr, 'sections': Strs})


def t_config(E, part):
    """parse_config: any parameter kk of params, or any input kk, or the
    source models of the logic tree"""
    files, models = part == 'inputs', part == 'tree'
    setup(E)
    M, P = Sites(E), Paths(E)
    kk = z3.Const('kk', S)
    src = E.const('source', Source)
    base = dirname(abspath(Source.attrfn('name')(src.e)))
    sects = Source.attrfn('sections')(src.e)
    key, val = (lambda x: Pair.get(x, 0)), (lambda x: Pair.get(x, 1))
    isfile = lambda x: z3.And(key(x) != V('sites_csv'),
                              z3.SuffixOf(V(SUFFIX), key(x)))
    short = lambda x: z3.SubString(key(x), 0, z3.Length(key(x)) - 5)

    def last(name, mine, value):
        """the last value given to kk, if any, by section and by file"""
        one = E.add_fold(Fold(name, Pair, OStr, OStr.none, lambda a, x, p:
                              z3.If(mine(x), OStr.some(value(x)), a)))
        return one, E.add_fold(Fold(
            name + ' in all sections', TStr, OStr, OStr.none,
            lambda a, x, p: z3.If(OStr.is_none(one(itemsf(x))), a,
                                  one(itemsf(x)))))
    param = last('parameter', lambda x: z3.And(z3.Not(isfile(x)), z3.If(
        key(x) == V('sites_csv'), kk == V('sites'), kk == key(x))),
        lambda x: z3.If(key(x) == V('sites_csv'),
                        M.wkt(within(base, val(x))), val(x)))
    inp = last('input', lambda x: z3.And(isfile(x), kk == short(x)),
               lambda x: within(base, val(x)))
    SM = V('source_model_logic_tree')
    smlt = last('logic tree', lambda x: z3.And(isfile(x), SM == short(x)),
                lambda x: within(base, val(x)))
    E.FEAS_MS = 200     # a path not refuted by then is followed
    there = E.induct('the path of the tree', Pairs, lambda s: z3.Implies(
        slash(base) != V(''), smlt[0](s) != OStr.some(V(''))))
    path = E.induct('the path of the tree in all sections', Strs, lambda s:
                    z3.Implies(slash(base) != V(''),
                               smlt[1](s) != OStr.some(V(''))),
                    lambda p, x: there(itemsf(x)))
    # reserved names (assumed): no parameter is called like the two results
    okkeys = [E.add_fold(Fold('no reserved name', Pair, TBool, T,
                              lambda a, x, p: z3.And(
                                  a, key(x) != V('inputs'),
                                  key(x) != V('base_path'),
                                  key(x) != V('source_file'))))]
    okkeys.append(E.add_fold(Fold(
        'no reserved names', TStr, TBool, T, lambda a, x, p: z3.And(
            a, okkeys[0](itemsf(x))))))
    named = lambda i: lambda s: z3.Implies(
        z3.And(kk == V('source'), okkeys[i](s)), OStr.is_none(inp[i](s)))
    one = E.induct('source is not given', Pairs, named(0))
    free = E.induct('source is not given at all', Strs, named(1),
                    lambda p, x: one(itemsf(x)))
    resolve = E.add_fold(Fold(
        'resolved', TStr, Strs, Strs.nil, lambda a, x, p: Strs.rawsnoc(
            a, within(base, x))))
    E.set_hooks[:] = []

    def paths(E, a, k):
        R = P.sorted(E.z(a[0], TStr))
        E.reg(Strs, R)
        return E.new_list(Sym(Strs, R))
    E.contracts['readini._collect_source_model_paths'] = paths

    def sites(E, a, k):
        return Sym(TStr, M.wkt(E.z(E.getattr(a[0], 'path'), TStr)))
    E.contracts['readini._parse_sites_csv'] = sites

    def split(E, seq, p, x, rest):
        if seq.t == Strs and seq.e.eq(sects):
            E.reg(Pairs, itemsf(x))
    E.split_hooks.append(split)

    def tmpl(E, seq, L0, node):
        out = []
        if seq is None or seq.t not in (Strs, Pairs):
            return out
        if seq.t == Strs and not seq.e.eq(sects):
            return out
        i = 0 if seq.t == Pairs else 1
        for n, (lt, e) in L0.items():
            if lt != NAMES:
                continue
            for k, nm, f in [{'inputs': (kk, 'input', inp),
                              'tree': (SM, 'tree', smlt),
                              'params': (kk, 'parameter', param)}[part]]:
                out += [
                    ('%s has the %s' % (n, nm), lambda p, L, n=n, e=e, k=k,
                     f=f: z3.Select(NAMES.has(L[n][1]), k) == z3.If(
                         OStr.is_none(f[i](p)), z3.Select(NAMES.has(e), k),
                         T)),
                    ('%s: value of the %s' % (n, nm), lambda p, L, n=n, e=e,
                     k=k, f=f: z3.Implies(
                         z3.Select(NAMES.has(L[n][1]), k),
                         z3.Select(NAMES.val(L[n][1]), k) == z3.If(
                             OStr.is_none(f[i](p)),
                             z3.Select(NAMES.val(e), k),
                             OStr.val(f[i](p)))))]
        return out
    E.templates.append(tmpl)

    def parser(E, a, k):
        read = []

        def readfp(E, o, f, *a):
            read.append(f)

        def sections(E, o):
            if not read:
                return E.new_list([])
            return E.new_list(Sym(Strs, sects))

        def items(E, o, s, *a):
            return E.new_list(Sym(Pairs, itemsf(E.z(s, TStr))))
        return E.const('parser', TObj('IniParser', meths=meths(
            readfp=readfp, sections=sections, items=items)))
    E.externals['ConfigParser.ConfigParser'] = parser
    E.modules.pop('openquake.commonlib.readini', None)

    def run():
        E.reg(Strs, sects)
        E.assume(okkeys[1](sects))
        E.assume(z3.And(*[kk != V(n) for n in ('inputs', 'base_path')]))
        tree = smlt[1](sects)
        E.assume(path(sects))
        E.assume(slash(base) != V(''))
        given = models and E.branch(z3.Not(OStr.is_none(tree)))
        r = E.call(E.lookup_path('readini.parse_config'), [src])
        get = lambda d, k: E.call(E.getattr(d, 'get'), [k])
        has = lambda d, k: E.branch(E.contains(k, d))
        K = Sym(TStr, kk)

        def given_as(d, want, what, which):
            """d has kk exactly when the file gives it, with that value"""
            p = E.getitem(d, K) if has(d, K) else None
            E.prove('exactly the %s' % what, (p is not None) == z3.Not(
                OStr.is_none(want)))
            if p is not None:
                E.prove('the %s' % which, E.eq(
                    p, Sym(TStr, OStr.val(want))))
        if part == 'params':
            given_as(r, param[1](sects), 'parameters of the sections',
                     'value of the parameter')
            reach(E, 'end')
            return
        inputs = E.getitem(r, 'inputs')
        if models:
            if given:
                s = E.getitem(inputs, 'source')
                R = P.sorted(OStr.val(tree))
                E.reg(Strs, R)
                E.prove('the source models, resolved',
                        E.z(s, Strs) == resolve(R))
            reach(E, 'tree' if given else 'no tree')
            return
        # with a logic tree, its models are the input called source
        if E.branch(kk == V('source')):
            E.assume(free(sects))
            E.prove('source models only of a logic tree', z3.Implies(
                E.contains('source', inputs), E.contains(
                    'source_model_logic_tree', inputs)))
            reach(E, 'source')
            return
        given_as(inputs, inp[1](sects), 'files as inputs',
                 'path of the file')
        reach(E, 'end')
    return run


TASKS = {'C23': [
    Task('_parse_sites_csv', t_sites, ['readini'], covers=['end']),
    Task('_collect_source_model_paths', t_paths, ['readini'],
         covers=['end']),
    Task('parse_config: parameters', lambda E: t_config(E, 'params'),
         ['readini'], covers=['end']),
    Task('parse_config: inputs', lambda E: t_config(E, 'inputs'),
         ['readini'], covers=['end', 'source']),
    Task('parse_config: source models', lambda E: t_config(E, 'tree'),
         ['readini'], covers=['tree', 'no tree'])]}
