"""converter.py and records.py: models as records and back."""
from .base import *     # noqa
from pydv.interp import StarSym

S = z3.StringSort()
V = z3.StringVal
Strs = TSeq(TStr)
I = z3.IntSort()

# --- the document: nodes with attributes, a text and subnodes
Attrib = TObj('Attributes')
XNode = TObj('Node', attrs={'tag': TStr, 'text': TStr, 'attrib': Attrib})
N = XNode.sort()
Nodes = TSeq(XNode)
attribf, textf = XNode.attrfn('attrib'), XNode.attrfn('text')
hasf = z3.Function('has attribute', Attrib.sort(), S, z3.BoolSort())
valf = z3.Function('attribute value', Attrib.sort(), S, S)
childf = z3.Function('first child', N, S, N)
haschild = z3.Function('has child', N, S, z3.BoolSort())
kidsf = z3.Function('children called', N, S, Nodes.sort())
allf = z3.Function('children', N, Nodes.sort())
toksf = z3.Function('words', S, Strs.sort())
stripf = z3.Function('stripped', S, S)
# --- records: the class and the row
Rec = TObj('AnyRecord')
recf = z3.Function('record', S, Strs.sort(), Rec.sort())
Recs = TSeq(Rec)


def attr(n, a):
    return valf(attribf(n), V(a))


def has(n, a):
    return hasf(attribf(n), V(a))


def child(n, *tags):
    for t in tags:
        n = childf(n, V(t))
    return n


def kids(n, tag):
    return kidsf(n, V(tag))


def optional(n, a, default=''):
    return z3.If(has(n, a), attr(n, a), V(default))


def a_get(E, o, a, k):
    x = E.z(a[0], TStr)
    if len(a) > 1 and E.kind(a[1]) == 'str':
        return Sym(TStr, z3.If(hasf(o.e, x), valf(o.e, x), E.z(a[1], TStr)))
    if E.branch(hasf(o.e, x)):
        return Sym(TStr, valf(o.e, x))
    return a[1] if len(a) > 1 else None


def a_item(E, o, x):
    x = E.z(x, TStr)
    if not E.branch(hasf(o.e, x)):
        E.raise_('KeyError', Sym(TStr, x))
    return Sym(TStr, valf(o.e, x))


Attrib.meths = {'get': a_get}
Attrib.hooks = {'getitem': a_item, 'contains': lambda E, o, x: E.boolv(
    hasf(o.e, E.z(x, TStr))), 'notnone': True}


def n_item(E, o, x):
    if isinstance(x, str) or isinstance(x, Sym) and x.t is TStr:
        return a_item(E, E.getattr(o, 'attrib'), x)
    return E.getitem(E.new_list(Sym(Nodes, allf(o.e))), x)


def n_getattr(E, o, a):
    if a in XNode.attrs:
        return E.val(XNode.attrs[a], XNode.attrfn(a)(o.e))
    if a == 'nodes':
        return E.new_list(Sym(Nodes, allf(o.e)))
    if a == 'getnodes':
        return Builtin('getnodes', lambda E, args, kw: E.new_list(Sym(
            Nodes, kidsf(o.e, E.z(args[0], TStr)))))
    if a.startswith('_') or a in ('append', 'to_str'):
        raise Unsupported('attribute %s of a node' % a)
    if not E.branch(haschild(o.e, V(a))):
        E.raise_('NameError', a)
    return Sym(XNode, childf(o.e, V(a)))


XNode.hooks = {
    'getattr': n_getattr, 'getitem': n_item, 'notnone': True,
    'iter': lambda E, o: E.new_list(Sym(Nodes, allf(o.e)))}


def setup_nodes(E):
    """models as nodes; records by class and row"""
    ext = E.externals

    def words(E, o, args):
        if args and args != [None]:
            return None
        s = toksf(E.z(o, TStr))
        E.reg(Strs, s)
        return E.new_list(Sym(Strs, s))
    ext['str.split'] = words
    ext['str.strip'] = lambda E, o, args: Sym(TStr, stripf(
        E.z(o, TStr))) if not args else None
    for m in ('record', 'records', 'converter'):
        E.modules.pop('openquake.commonlib.' + m, None)
    mod = E.module('openquake.commonlib.records')
    base = E.lookup_path('record.Record')
    E.record_fields = {}
    for n, c in sorted(mod.env.items()):
        if isinstance(c, ClassV) and c.issub(base) and c is not base:
            E.construct[n] = make_record


def make_record(E, cls, args, kw):
    """the row is made by the constructor of the record class"""
    del E.construct[cls.name]
    try:
        r = E.instantiate(cls, args, kw)
    finally:
        E.construct[cls.name] = make_record
    row = E.getattr(r, 'row')
    return Sym(Rec, recf(V(cls.name), E.z(row, Strs)))


def rec(kind, *row):
    e = Strs.nil
    for x in row:
        e = Strs.rawsnoc(e, V(x) if isinstance(x, str) else x)
    return recf(V(kind), e)


def required(n, attrs=(), children=()):
    """what the schema requires of a node"""
    return z3.And([has(n, a) for a in attrs] + [haschild(n, V(c))
                                                for c in children])


def collect(E, gen):
    return E.z(E.call(E.builtins['list'], [gen]), Recs)


def t_vulnerability(E):
    setup_nodes(E)
    node = E.const('node', XNode)
    data = E.add_fold(Fold(
        'levels', TStr, Recs, Recs.nil, lambda a, x, p, st, fn, rs, cs:
        Recs.rawsnoc(a, rec('DiscreteVulnerabilityData', st, fn, x, E.nth(
            Sym(Strs, rs), E.len(Strs, p)).e, E.nth(
                Sym(Strs, cs), E.len(Strs, p)).e)),
        params=[TStr, TStr, Strs, Strs]))
    toks = lambda n, *tags: toksf(textf(child(n, *tags)))

    def data_args(st, x):
        return (st, attr(x, 'vulnerabilityFunctionID'),
                toks(x, 'lossRatio'), toks(x, 'coefficientsVariation'))
    funs = E.add_fold(Fold(
        'functions', XNode, Recs, Recs.nil, lambda a, x, p, st, imls: E.cat(
            Recs, Recs.rawsnoc(a, rec(
                'DiscreteVulnerability', st,
                attr(x, 'vulnerabilityFunctionID'),
                attr(x, 'probabilisticDistribution'))),
            data(imls, *data_args(st, x))), params=[TStr, Strs]))
    ID = 'vulnerabilitySetID'
    sets = E.add_fold(Fold(
        'sets', XNode, Recs, Recs.nil, lambda a, x, p: E.cat(
            Recs, Recs.rawsnoc(a, rec(
                'DiscreteVulnerabilitySet', attr(x, ID), attr(
                    x, 'assetCategory'), attr(x, 'lossCategory'),
                attr(child(x, 'IML'), 'IMT'))), funs(
                    kids(x, 'discreteVulnerability'), attr(x, ID),
                    toks(x, 'IML')))))
    ALL = kids(node.e, 'discreteVulnerabilitySet')
    cur = {}

    def split(E, seq, p, x, rest):
        if seq.e.eq(ALL):
            E.assume(required(x, (ID, 'assetCategory', 'lossCategory'),
                              ('IML',)))
            E.assume(required(child(x, 'IML'), ('IMT',)))
            cur['set'] = x
            E.reg(Nodes, kids(x, 'discreteVulnerability'))
            funs.insts = [(attr(x, ID), toks(x, 'IML'))]
        elif seq.t == Nodes:
            st = cur['set']
            E.assume(required(x, ('vulnerabilityFunctionID',
                                  'probabilisticDistribution'),
                              ('lossRatio', 'coefficientsVariation')))
            imls = toks(st, 'IML')
            for t in ('lossRatio', 'coefficientsVariation'):
                E.assume(E.len(Strs, toks(x, t)) == E.len(Strs, imls))
            E.reg(Strs, imls)
            E.zip_bases = [imls]
            data.insts = [data_args(attr(st, ID), x)]
    E.split_hooks.append(split)

    def run():
        E.reg(Nodes, ALL)
        r = collect(E, E.call(E.lookup_path(
            'converter.Vulnerability.node_to_records'), [node]))
        E.prove('the sets, functions and levels in order', r == sets(ALL))
        reach(E, 'end')
    return run


def t_fragility(fmt):
    def t(E):
        setup_nodes(E)
        node = E.const('node', XNode)
        disc = fmt == 'discrete'
        kind = 'Discrete' if disc else 'Continuous'
        tag = 'ffd' if disc else 'ffc'
        toks = lambda n, *tags: toksf(textf(child(n, *tags)))
        strip = lambda n, t: stripf(textf(child(n, t)))
        LS = toks(node.e, 'limitStates')
        ALL = kids(node.e, 'ffs')
        states = E.add_fold(Fold(
            'limit states', TStr, Recs, Recs.nil, lambda a, x, p:
            Recs.rawsnoc(a, rec('FFLimitState' + kind, x))))
        data = E.add_fold(Fold(
            'levels', TStr, Recs, Recs.nil, lambda a, x, p, ls, i, ps:
            Recs.rawsnoc(a, rec('FFDataDiscrete', ls, i, x, E.nth(
                Sym(Strs, ps), E.len(Strs, p)).e)),
            params=[TStr, TStr, Strs]))

        def of_state(a, x, p, i, imls):
            ls = attr(x, 'ls')
            if disc:
                return E.cat(Recs, a, data(imls, ls, i, toks(x, 'poEs')))
            for q in ('mean', 'stddev'):
                a = Recs.rawsnoc(a, rec('FFDataContinuous', ls, i, q, attr(
                    child(x, 'params'), q)))
            return a
        funs = E.add_fold(Fold(
            'functions', XNode, Recs, Recs.nil, of_state,
            params=[TStr, Strs]))

        def number(p):
            return E.z(E.call(E.builtins['str'], [Sym(
                TInt, E.len(Nodes, p) + 1)]), TStr)

        def of_set(a, x, p):
            iml = child(x, 'IML')
            row = [number(p), strip(x, 'taxonomy'),
                   optional(x, 'noDamageLimit')]
            if not disc:
                row.append(optional(x, 'type'))
            row += [attr(iml, 'IMT'), attr(iml, 'imlUnit')]
            if not disc:
                row += [attr(iml, 'minIML'), attr(iml, 'maxIML')]
            return E.cat(Recs, Recs.rawsnoc(a, rec('FFSet' + kind, *row)),
                         funs(kids(x, tag), number(p), toks(x, 'IML')))
        sets = E.add_fold(Fold('sets', XNode, Recs, Recs.nil, of_set))
        cur = {}

        def split(E, seq, p, x, rest):
            if seq.e.eq(ALL):
                E.assume(required(x, (), ('IML', 'taxonomy')))
                E.assume(required(child(x, 'IML'), (
                    'IMT', 'imlUnit') + (() if disc else (
                        'minIML', 'maxIML'))))
                cur['set'] = x, number(p)
                E.reg(Nodes, kids(x, tag))
                E.reg(Strs, toks(x, 'IML'))
                # one function per limit state
                E.assume(E.len(Nodes, kids(x, tag)) == E.len(Strs, LS))
                funs.insts = [(number(p), toks(x, 'IML'))]
            elif seq.t == Nodes:
                st, i = cur['set']
                E.assume(required(x, ('ls',), (
                    'poEs' if disc else 'params',)))
                E.assume(attr(x, 'ls') == E.nth(Sym(Strs, LS), E.len(
                    Nodes, p)).e)
                if disc:
                    imls = toks(st, 'IML')
                    E.assume(E.len(Strs, toks(x, 'poEs')) == E.len(
                        Strs, imls))
                    E.zip_bases = [imls]
                    data.insts = [(attr(x, 'ls'), i, toks(x, 'poEs'))]
                else:
                    E.assume(required(child(x, 'params'), (
                        'mean', 'stddev')))
        E.split_hooks.append(split)

        def run():
            E.assume(required(node.e, ('format',), (
                'limitStates', 'description')))
            E.assume(attr(node.e, 'format') == V(fmt))
            E.reg(Nodes, ALL)
            E.reg(Strs, LS)
            r = collect(E, E.call(E.lookup_path(
                'converter.Fragility%s.node_to_records' % kind), [node]))
            want = Recs.rawsnoc(Recs.nil, rec(
                'Fragility' + kind, fmt, strip(node.e, 'description'),
                strip(node.e, 'limitStates')))
            want = E.cat(Recs, E.cat(Recs, want, states(LS)), sets(ALL))
            E.prove('the model, the limit states, the sets and their data '
                    'in order', r == want)
            reach(E, 'end')
        return run
    return t


def t_gmf(single):
    def t(E):
        setup_nodes(E)
        node = E.const('node', XNode)
        ALL = kids(node.e, 'gmfSet')
        point = E.add_fold(Fold(
            'points', XNode, Recs, Recs.nil, lambda a, x, p, s, imt, rup:
            Recs.rawsnoc(a, rec('GmfData', s, imt, rup, attr(x, 'lon'),
                                attr(x, 'lat'), attr(x, 'gmv'))),
            params=[TStr, TStr, TStr]))

        def of(x):
            imt = attr(x, 'IMT')
            return z3.If(imt == V('SA'), z3.Concat(imt, V('('), attr(
                x, 'saPeriod'), V(')')), imt), V('') if single else attr(
                    x, 'ruptureId')
        field = E.add_fold(Fold(
            'fields', XNode, Recs, Recs.nil, lambda a, x, p, s: E.cat(
                Recs, Recs.rawsnoc(a, rec('Gmf', s, *of(x))),
                point(allf(x), s, *of(x))), params=[TStr]))
        SID = 'stochasticEventSetId'
        sets = E.add_fold(Fold(
            'sets', XNode, Recs, Recs.nil, lambda a, x, p: E.cat(
                Recs, Recs.rawsnoc(a, rec('GmfSet', attr(x, SID), attr(
                    x, 'investigationTime'))), field(
                        kids(x, 'gmf'), attr(x, SID)))))
        cur = {}

        def split(E, seq, p, x, rest):
            d = seq.e.decl()
            if seq.e.eq(ALL):
                E.assume(required(x, (SID, 'investigationTime')))
                cur['set'] = x
                E.reg(Nodes, kids(x, 'gmf'))
                field.insts = [(attr(x, SID),)]
            elif seq.t == Nodes and d.eq(kidsf):
                E.assume(required(x, ('IMT',) + (
                    () if single else ('ruptureId',))))
                E.assume(z3.Implies(attr(x, 'IMT') == V('SA'), has(
                    x, 'saPeriod')))
                s = V('0') if single else attr(cur['set'], SID)
                E.reg(Nodes, allf(x))
                imt, rup = of(x)
                E.branch(attr(x, 'IMT') == V('SA'))
                point.insts = [(s, imt, rup)]
            elif seq.t == Nodes:
                E.assume(required(x, ('lon', 'lat', 'gmv')))
        E.split_hooks.append(split)

        def run():
            E.reg(Nodes, ALL)
            tag = XNode.attrfn('tag')(node.e)
            if single:
                E.assume(tag == V('gmfSet'))
                E.reg(Nodes, kids(node.e, 'gmf'))
                field.insts = [(V('0'),)]
                want = E.cat(Recs, Recs.rawsnoc(Recs.nil, rec(
                    'GmfSet', '0', '')), field(kids(node.e, 'gmf'), V('0')))
            else:
                E.assume(tag == V('gmfCollection'))
                E.assume(required(node.e, (
                    'sourceModelTreePath', 'gsimTreePath')))
                want = E.cat(Recs, Recs.rawsnoc(Recs.nil, rec(
                    'GmfCollection', attr(node.e, 'sourceModelTreePath'),
                    attr(node.e, 'gsimTreePath'))), sets(ALL))
            r = collect(E, E.call(E.lookup_path(
                'converter.GmfCollection.node_to_records'), [node]))
            E.prove('the sets, fields and points in order', r == want)
            reach(E, 'end')
        return run
    return t


Loc = TTup(TStr, TStr)
LOCS = TMap(Loc, TStr)


def t_exposure(E):
    setup_nodes(E)
    node = E.const('node', XNode)
    assets = allf(child(node.e, 'assets'))

    def sub(x, tag):
        """the children of an optional child"""
        return z3.If(haschild(x, V(tag)), allf(child(x, tag)), Nodes.nil)

    def place(x):
        loc = child(x, 'location')
        return Loc.mk(attr(loc, 'lon'), attr(loc, 'lat'))
    ctypes = E.add_fold(Fold(
        'cost types', XNode, Recs, Recs.nil, lambda a, x, p: Recs.rawsnoc(
            a, rec('CostType', attr(x, 'name'), attr(x, 'type'), attr(
                x, 'unit'), optional(x, 'retrofittedType'), optional(
                    x, 'retrofittedUnit')))))
    occs = E.add_fold(Fold(
        'occupancies', XNode, Recs, Recs.nil, lambda a, x, p, ref:
        Recs.rawsnoc(a, rec('Occupancy', ref, attr(x, 'period'), attr(
            x, 'occupants'))), params=[TStr]))
    costs = E.add_fold(Fold(
        'costs', XNode, Recs, Recs.nil, lambda a, x, p, ref:
        Recs.rawsnoc(a, rec('Cost', ref, attr(x, 'type'), attr(x, 'value'),
                            optional(x, 'retrofitted'), optional(
                                x, 'deductible'), optional(
                                    x, 'insuranceLimit'))), params=[TStr]))

    def str_(n):
        return E.z(E.call(E.builtins['str'], [Sym(TInt, n)]), TStr)
    known = E.add_fold(Fold(
        'known places', XNode, TSet(Loc), z3.K(Loc.sort(), F),
        lambda a, x, p: z3.Store(a, place(x), T)))
    count = E.add_fold(Fold(
        'number of places', XNode, TInt, z3.IntVal(0), lambda a, x, p: z3.If(
            z3.Select(known(p), place(x)), a, a + 1)))
    where = E.add_fold(Fold(
        'identifiers of places', XNode, LOCS, LOCS.mk(
            z3.K(Loc.sort(), F), z3.K(Loc.sort(), E.default_of(TStr))),
        lambda a, x, p: z3.If(
            z3.Select(known(p), place(x)), a, LOCS.mk(
                z3.Store(LOCS.has(a), place(x), T), z3.Store(
                    LOCS.val(a), place(x), str_(count(p) + 1))))))
    same = E.induct('the places with an identifier are the known ones', Nodes,
                    lambda s: LOCS.has(where(s)) == known(s))

    def of_asset(a, x, p):
        ref, pl = attr(x, 'id'), place(x)
        a = E.cat(Recs, a, occs(sub(x, 'occupancies'), ref))
        a = E.cat(Recs, a, costs(sub(x, 'costs'), ref))
        new = z3.Not(z3.Select(known(p), pl))
        i = z3.If(new, str_(count(p) + 1), z3.Select(LOCS.val(where(p)), pl))
        a = z3.If(new, Recs.rawsnoc(a, rec('Location', i, Loc.get(
            pl, 0), Loc.get(pl, 1))), a)
        return Recs.rawsnoc(a, rec('Asset', i, ref, attr(
            x, 'taxonomy'), attr(x, 'number'), optional(x, 'area')))
    all_ = E.add_fold(Fold('assets', XNode, Recs, Recs.nil, of_asset))

    def split(E, seq, p, x, rest):
        if seq.e.eq(assets):
            E.assume(required(x, ('id', 'taxonomy', 'number'), (
                'location',)))
            E.assume(required(child(x, 'location'), ('lon', 'lat')))
            E.assume(same(p))
            for t, f in ('occupancies', occs), ('costs', costs):
                E.reg(Nodes, allf(child(x, t)))
                f.insts = [(attr(x, 'id'),)]
        elif seq.t == Nodes:
            # the attributes of cost types, costs and occupancies
            tag = seq.e.arg(0)
            for t, need in (('costTypes', ('name', 'type', 'unit')),
                            ('costs', ('type', 'value')),
                            ('occupancies', ('period', 'occupants'))):
                if tag.decl().eq(childf) and tag.arg(1).eq(V(t)):
                    E.assume(required(x, need))
    E.split_hooks.append(split)

    def tmpl(E, seq, L0, node):
        if seq is None or not seq.e.eq(assets):
            return []
        out = []
        for n, (lt, e) in L0.items():
            if lt == LOCS:
                out.append(('%s: the places so far' % n, lambda p, L, n=n:
                            LOCS.has(L[n][1]) == known(p)))
            elif lt is TInt:
                out += [('%s: number of places + %d' % (n, k),
                         lambda p, L, n=n, k=k: L[n][1] == count(p) + k)
                        for k in (0, 1)]
            elif lt == TSeq(Loc):
                # the keys of the places, in order of insertion
                out.append(('%s: one for each place' % n, lambda p, L, n=n,
                            lt=lt: E.len(lt, L[n][1]) == count(p)))
        return out
    E.templates.append(tmpl)

    def run():
        n = node.e
        E.assume(required(n, ('id', 'category'), ('description', 'assets')))
        E.reg(Nodes, assets)
        strip = stripf(textf(child(n, 'description')))
        head = [attr(n, 'id'), attr(n, 'category'), optional(
            n, 'taxonomySource', 'UNKNOWN'), strip]
        if E.branch(attr(n, 'category') == V('buildings')):
            conv = child(n, 'conversions')
            ct = allf(child(conv, 'costTypes'))
            E.assume(required(n, (), ('conversions',)))
            E.assume(required(conv, (), ('costTypes', 'deductible',
                                         'insuranceLimit')))
            area = child(conv, 'area')
            there = haschild(conv, V('area'))
            E.assume(z3.Implies(there, required(area, ('type', 'unit'))))
            for t in 'deductible', 'insuranceLimit':
                E.assume(required(child(conv, t), ('isAbsolute',)))
            E.reg(Nodes, ct)
            want = ctypes(ct)
            head += [z3.If(there, attr(area, a), V('')) for a in (
                'type', 'unit')] + [attr(child(conv, t), 'isAbsolute')
                                    for t in ('deductible',
                                              'insuranceLimit')]
            reach(E, 'buildings')
        else:
            head += [V('')] * 4
            want = Recs.nil
        want = E.cat(Recs, Recs.rawsnoc(want, rec('Exposure', *head)), all_(
            assets))
        r = collect(E, E.call(E.lookup_path(
            'converter.Exposure.node_to_records'), [node]))
        E.prove('the cost types, the exposure, the occupancies, costs and '
                'place of each asset and the asset', r == want)
        reach(E, 'end')
    return run


MODS = ['converter', 'records', 'record']
TASKS = {
    'C17': [Task('records of a model', t_vulnerability, MODS,
                 covers=['end'])],
    'C18': [Task('records of a %s model' % f, t_fragility(f), MODS,
                 covers=['end']) for f in ('discrete', 'continuous')],
    'C19': [Task('records of a model', t_exposure, MODS,
                 covers=['end', 'buildings'])],
    'C20': [Task('records of a %s' % n, t_gmf(x), MODS, covers=['end'])
            for n, x in (('collection', False), ('single set', True))]}


# --- the nodes made of the records
NODE = '''
class Node(object):
    def __init__(self, tag, attrib=None, text=None, nodes=None):
        self.tag = tag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes

    def __getattr__(self, name):
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError(name)

    def getnodes(self, name):
        return [n for n in self.nodes if n.tag == name]

    def append(self, node):
        self.nodes.append(node)

    def __iter__(self):
        return iter(self.nodes)

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True
'''


def node_class(E):
    """nrmllib.Node as a class of the program (its contract is trusted)"""
    import ast as pyast
    from pydv.interp import py3json
    from pydv.engine import ModuleV, Frame
    m = ModuleV('openquake.nrmllib.node')
    fr = Frame(E.fresh_id(), None, m, None, None)
    for s in py3json(pyast.parse(NODE))['body']:
        E.exec_stmt(s, fr)
    E.ext_values['openquake.nrmllib.node.Node'] = m.env['Node']
    for n in ('record', 'records', 'converter'):
        E.modules.pop('openquake.commonlib.' + n, None)
    return m.env['Node']


def dict_of(E, ref):
    h = E.h(ref)
    if h.d is None:
        raise Unsupported('attributes with symbolic names')
    return h.d


def same_node(E, name, ref, want, seen):
    """the node has exactly this tag, attributes, text and subnodes, and
    shares nothing with those seen before"""
    tag, attrib, text, nodes = want
    E.prove('%s is a node' % name, isinstance(ref, Ref) and isinstance(
        E.h(ref), HInst) and E.h(ref).cls is E.ext_values[
            'openquake.nrmllib.node.Node'])
    get = lambda a: E.getattr(ref, a)
    E.prove('%s: the tag' % name, E.z(get('tag'), TStr) == V(tag))
    d = dict_of(E, get('attrib'))
    E.prove('%s: exactly the attributes %s' % (name, sorted(attrib)),
            sorted(d) == sorted(attrib))
    for k in sorted(attrib):
        E.prove('%s: the attribute %s' % (name, k),
                E.z(d[k], TStr) == attrib[k])
    t = get('text')
    if text is None:
        E.prove('%s: no text' % name, t is None or E.z(t, TStr) == V(''))
    else:
        E.prove('%s: the text' % name, t is not None and E.z(
            t, TStr) == text)
    kids_ = E.content(get('nodes'))
    E.prove('%s: %d subnodes' % (name, len(nodes)), isinstance(
        kids_, list) and len(kids_) == len(nodes))
    for r in (ref, get('attrib'), get('nodes')):
        E.prove('%s is not shared' % name, r not in seen)
        seen.append(r)
    for k, w in zip(kids_, nodes):
        same_node(E, '%s.%s' % (name, w[0]), k, w, seen)


def to_node(kind, fields, want):
    """any record of this kind as a node; `want` gives the expected node
    from the values of the fields, in the order of the columns"""
    def t(E):
        node_class(E)
        row = [E.const(f, TStr) for f in fields.split()]

        def run():
            cls = E.lookup_path('records.' + kind)
            rec_ = E.instantiate(cls, list(row), {})
            w = want(E, *[r.e for r in row])
            seen = []
            for i in 'first', 'second':
                n = E.call(E.getattr(rec_, 'to_node'), [], {})
                same_node(E, '%s node' % i, n, w, seen)
            now = E.content(E.getattr(rec_, 'row'))
            E.prove('the record is not changed', isinstance(
                now, list) and len(now) == len(row) and z3.And(
                    [E.z(a, TStr) == b.e for a, b in zip(now, row)]))
            reach(E, 'end')
        return run
    return Task('the node of any %s record' % kind, t, MODS, covers=['end'])


def given(E, d, **opt):
    """optional attributes: those with a value"""
    for k, e in sorted(opt.items()):
        if E.branch(e != V('')):
            d[k] = e
    return d


def n(tag, attrib={}, text=None, nodes=()):
    return tag, attrib, text, list(nodes)


def w_ffset(E, o, tax, ndl, imt, unit):
    return n('ffs', given(E, {}, noDamageLimit=ndl), None, [
        n('taxonomy', text=tax), n('IML', dict(IMT=imt, imlUnit=unit))])


def w_ffset_c(E, o, tax, ndl, typ, imt, unit, lo, hi):
    return n('ffs', given(E, {}, noDamageLimit=ndl, type=typ), None, [
        n('taxonomy', text=tax), n('IML', dict(
            IMT=imt, imlUnit=unit, minIML=lo, maxIML=hi))])


def w_frag(E, fmt, desc, ls):
    return n('fragilityModel', dict(format=fmt), None, [
        n('description', text=desc), n('limitStates', text=ls)])


def w_exposure(E, id_, cat, tax, desc, atype, aunit, ded, ins):
    kids_ = [n('description', text=desc)]
    if E.branch(cat == V('buildings')):
        kids_.append(n('conversions', nodes=[
            n('area', dict(type=atype, unit=aunit)), n('costTypes'),
            n('deductible', dict(isAbsolute=ded)),
            n('insuranceLimit', dict(isAbsolute=ins))]))
    return n('exposureModel', dict(id=id_, category=cat, taxonomySource=tax),
             None, kids_ + [n('assets')])


def w_gmfset(E, ses, time):
    d = given(E, {}, investigationTime=time)
    if E.branch(ses != V('0')):
        d['stochasticEventSetId'] = ses
    return n('gmfSet', d)


NODES = {
    'C17': [
        to_node('DiscreteVulnerabilitySet', 'id category loss imt',
                lambda E, i, c, l, imt: n('discreteVulnerabilitySet', dict(
                    vulnerabilitySetID=i, assetCategory=c, lossCategory=l),
                    None, [n('IML', dict(IMT=imt))])),
        to_node('DiscreteVulnerability', 'set id dist',
                lambda E, s, i, d: n('discreteVulnerability', dict(
                    vulnerabilityFunctionID=i, probabilisticDistribution=d),
                    None, [n('lossRatio'), n('coefficientsVariation')]))],
    'C18': [to_node('FragilityDiscrete', 'format desc states', w_frag),
            to_node('FragilityContinuous', 'format desc states', w_frag),
            to_node('FFSetDiscrete', 'ordinal tax limit imt unit', w_ffset),
            to_node('FFSetContinuous', 'ordinal tax limit type imt unit lo hi',
                    w_ffset_c)],
    'C19': [
        to_node('Exposure', 'id category source desc type unit ded ins',
                w_exposure),
        to_node('Location', 'id lon lat', lambda E, i, x, y: n(
            'location', dict(lon=x, lat=y))),
        to_node('CostType', 'name type unit rtype runit',
                lambda E, name, typ, unit, rt, ru: n('costType', given(
                    E, dict(name=name, type=typ, unit=unit),
                    retrofittedType=rt, retrofittedUnit=ru))),
        to_node('Asset', 'place id tax number area',
                lambda E, pl, i, tax, num, area: n('asset', given(E, dict(
                    id=i, taxonomy=tax, number=num), area=area))),
        to_node('Occupancy', 'ref period number', lambda E, r, p, o: n(
            'occupancy', dict(period=p, occupants=o))),
        to_node('Cost', 'ref type value retrofitted deductible limit',
                lambda E, r, typ, v, re_, d, li: n('cost', given(
                    E, dict(type=typ, value=v), retrofitted=re_,
                    deductible=d, insuranceLimit=li)))],
    'C20': [to_node('GmfCollection', 'model gsim', lambda E, m, g: n(
                'gmfCollection', dict(sourceModelTreePath=m,
                                      gsimTreePath=g))),
            to_node('GmfSet', 'id time', w_gmfset),
            to_node('GmfData', 'id imt rup lon lat gmv',
                    lambda E, i, imt, rup, x, y, v: n('node', dict(
                        lon=x, lat=y, gmv=v)))]}
for _k, _v in NODES.items():
    TASKS[_k] += _v


# --- nodedict: any table of records as an ordered dictionary
Key = TTup(TStr, TStr)
XNode2 = TObj('NodeOfRecord')
TRec = TObj('TableRecord', attrs={'pkey': Key})
ndf = z3.Function('node of the record', TRec.sort(), XNode2.sort())
pk = TRec.attrfn('pkey')
TRec.meths = {'to_node': lambda E, o, a, k: Sym(XNode2, ndf(o.e))}
TRecs, KSeq, NSeq = TSeq(TRec), TSeq(Key), TSeq(XNode2)


def t_nodedict(E):
    seen = E.add_fold(Fold('keys so far', TRec, TSet(Key), z3.K(
        Key.sort(), F), lambda a, x, p: z3.Store(a, pk(x), T)))
    distinct = E.add_fold(Fold(
        'distinct keys', TRec, TBool, T, lambda a, x, p: z3.And(
            a, z3.Not(z3.Select(seen(p), pk(x))))))
    keys = E.add_fold(Fold('keys in order', TRec, KSeq, KSeq.nil,
                           lambda a, x, p: KSeq.rawsnoc(a, pk(x))))
    K = E.const('K', Key)
    at_key = E.add_fold(Fold(
        'the node at K', TRec, TOpt(XNode2), TOpt(XNode2).none,
        lambda a, x, p: z3.If(pk(x) == K.e, TOpt(XNode2).some(ndf(x)), a)))
    recs = E.const('S', TRecs)
    M = TMap(Key, XNode2)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != TRecs:
            return []
        o = TOpt(XNode2)
        return [('%s at K' % n, lambda p, L, n=n: z3.And(
            z3.Select(M.has(L[n][1]), K.e) == z3.Not(o.is_none(at_key(p))),
            z3.Implies(z3.Select(M.has(L[n][1]), K.e), z3.Select(M.val(
                L[n][1]), K.e) == o.val(at_key(p)))))
            for n, (lt, e) in L0.items() if lt == M]
    E.templates.append(tmpl)

    def run():
        E.assume(distinct(recs.e))
        d = E.call(E.lookup_path('record.nodedict'), [E.new_list(recs)], {})
        ks = E.call(E.getattr(d, 'keys'), [], {})
        E.prove('the primary keys of the records in their order',
                E.z(ks, KSeq) == keys(recs.e))
        want = at_key(recs.e)
        there = E.contains(K, d)
        E.prove('the keys are the primary keys', there == z3.Select(
            seen(recs.e), K.e))
        E.prove('under the key of a record its node', z3.Implies(
            there, z3.And(z3.Not(TOpt(XNode2).is_none(want)), E.z(E.getitem(
                d, K), XNode2) == TOpt(XNode2).val(want))) if E.branch(there)
            else T)
        reach(E, 'end')
    return run


for _k in TASKS:
    TASKS[_k].append(Task('nodedict', t_nodedict, MODS, covers=['end']))


# --- the models made of the tables
MAP = TMap(TStr, TStr)
BN = TObj('BuiltNode', mut={'text': TStr})
BNs = TSeq(BN)
BN.mut['nodes'] = BNs
B_ = BN.sort()
mkf = z3.Function('a node', S, MAP.sort(), S, BNs.sort(), B_)
battr = z3.Function('attribute of the node', B_, S, S)
bchild = z3.Function('subnode', B_, S, B_)
bparent = z3.Function('node of the subnode', B_, B_)
btag = z3.Function('tag of the subnode', B_, S)
bkind = z3.Function('kind of node', B_, z3.IntSort())
Nodelist = TObj('NodeList', hooks={'notnone': True})
lown = z3.Function('nodes of', B_, Nodelist.sort())
lof = z3.Function('owner of the nodes', Nodelist.sort(), B_)


def text_of(E, v):
    return V('') if v is None else E.z(v, TStr)


def attrs_term(E, d):
    """attributes as a map, from a dictionary of texts"""
    h = E.h(d) if isinstance(d, Ref) else None
    if h is not None and h.d is None:
        return E.z(d, MAP)
    return attr_map(E, dict((k, E.z(v, TStr)) for k, v in (
        h.d if h is not None else d).items()))


def attr_map(E, d):
    has, val = z3.K(S, F), z3.K(S, E.default_of(TStr))
    for k in sorted(d):
        has, val = z3.Store(has, V(k), T), z3.Store(val, V(k), d[k])
    return MAP.mk(has, val)


def mk(E, tag, attrib={}, text='', nodes=()):
    """the node with this content"""
    e = BNs.nil
    if isinstance(nodes, z3.ExprRef):
        e = nodes
    else:
        for x in nodes:
            e = BNs.rawsnoc(e, x)
    return mkf(V(tag), attr_map(E, dict((k, V(v) if isinstance(
        v, str) else v) for k, v in attrib.items())), V(text) if isinstance(
            text, str) else text, e)


def built(E, ref):
    """a node made by the code, kept in a list of nodes"""
    g = lambda a: E.getattr(ref, a)
    for a in 'attrib', 'nodes':
        E.freeze(g(a))
    return mkf(E.z(g('tag'), TStr), attrs_term(E, g('attrib')), text_of(
        E, g('text')), E.z(g('nodes'), BNs))


def bn_child(E, o, a):
    x = bchild(o, V(a))
    E.assume(z3.And(bparent(x) == o, btag(x) == V(a), bkind(x) == 0))
    return x


float_ok = z3.Function('float_ok', S, z3.BoolSort())
joinf = z3.Function('joined', S, Strs.sort(), S)


def bn_getattr(E, o, a):
    if a == 'getnodes' or a.startswith('_'):
        raise Unsupported('attribute %s of a node' % a)
    return Sym(BN, bn_child(E, o.e, a))


def bn_nodes(E, o):
    e = lown(o.e)
    E.assume(lof(e) == o.e)
    return Sym(Nodelist, e)


def put(E, o, v, t, more):
    """add v (of type t) to the nodes of o"""
    e = E.z(v, t)       # first: making a list of an iterator has effects
    arr = E.array(BN, 'nodes')
    E.st.arrays[(BN.name, 'nodes')] = z3.Store(
        arr, o.e, more(z3.Select(arr, o.e), e))


def owner(l):
    return Sym(BN, lof(l.e))


def bn_item(E, o, x):
    if isinstance(x, str):
        return Sym(TStr, battr(o.e, V(x)))
    raise Unsupported('item %r of a node' % (x,))


def insert(E, l, a):
    def more(old, e):
        if a[0] != 1:
            raise Unsupported('insertion at %r' % (a[0],))
        # after the first one, which is there
        hd, tl = first_rest(E, old)
        return E.cat(BNs, BNs.rawsnoc(BNs.rawsnoc(BNs.nil, hd), e), tl)
    put(E, owner(l), a[1], BN, more)


def list_sum(E, op, a, b):
    if op != 'Add':
        raise Unsupported('%s of lists of nodes' % op)
    e = [z3.Select(E.array(BN, 'nodes'), lof(x.e)) if isinstance(
        x, Sym) and x.t == Nodelist else E.z(x, BNs) for x in (a, b)]
    return E.new_list(Sym(BNs, E.cat(BNs, e[0], e[1])))


def first_rest(E, seq):
    hd = z3.Function('first of the nodes', BNs.sort(), B_)(seq)
    tl = z3.Function('the other nodes', BNs.sort(), BNs.sort())(seq)
    return hd, tl


BN.attrs['nodes'] = bn_nodes
BN.meths = {'append': lambda E, o, a, k: put(
    E, o, a[0], BN, BNs.rawsnoc)}
BN.hooks = {'getattr': bn_getattr, 'getitem': bn_item, 'notnone': True,
            'truth': lambda E, o: True}
Nodelist.hooks['iter'] = lambda E, l: E.new_list(Sym(
    BNs, E.reg(BNs, z3.Select(E.array(BN, 'nodes'), lof(l.e)))))
Nodelist.hooks['binop'] = lambda E, op, a, b: list_sum(E, op, a, b)
Nodelist.meths = {
    'append': lambda E, l, a, k: put(E, owner(l), a[0], BN, BNs.rawsnoc),
    'extend': lambda E, l, a, k: put(
        E, owner(l), a[0], BNs, lambda old, e: E.cat(BNs, old, e)),
    'insert': lambda E, l, a, k: insert(E, l, a)}



def row_type(E, cols, texts={}):
    """rows of a table with these columns; `texts` are those whose values
    are texts (True: or None)"""
    cols = cols.split()
    t = TObj('RowOf ' + ' '.join(cols))
    f = {}
    for c in cols:
        f[c] = z3.Function('column ' + c, t.sort(), S)
        f['value ' + c] = z3.Function('value of ' + c, t.sort(),
                                      z3.RealSort())

    def text(o, c):
        return Sym(TStr, f[c](o.e))

    def item(E, o, x):
        if isinstance(x, str):
            if x not in cols:
                E.raise_('KeyError', x)
            return text(o, x)
        if isinstance(x, int) and -len(cols) <= x < len(cols):
            return text(o, cols[x])
        if isinstance(x, slice) and all(y is None or type(y) is int for y in (
                x.start, x.stop, x.step)):
            return E.new_list([text(o, c) for c in cols[x]])
        raise Unsupported('item %r of a row' % (x,))

    def get(E, o, a):
        if a in texts:
            # a text; None when it is empty and optional
            if texts[a] and E.branch(f[a](o.e) == V('')):
                return None
            return text(o, a)
        if a in cols:
            return Sym(TReal, f['value ' + a](o.e))
        if a == 'row':
            return E.new_list([text(o, c) for c in cols])
        raise Unsupported('attribute %s of a row' % a)
    t.hooks = {'getitem': item, 'getattr': get, 'notnone': True,
               'iter': lambda E, o: E.new_list([text(o, c) for c in cols])}
    t.cols, t.f = cols, f
    return t


class Tables(object):
    """the tables of a converter: sequences of rows, and the ordered
    dictionaries made of them (see the contract of nodedict)"""
    def __init__(self, E):
        self.E = E
        node_class(E)
        E.value_types['Node'] = BN, built
        self.t, self.rows, self.kinds, self.dicts = {}, {}, {}, {}
        self.numbers, self.kept = [], []
        E.split_hooks.append(self.number)
        E.templates.append(self.lists)
        E.contracts['record.nodedict'] = self.nodedict
        self.tset = Sym(TObj('TableSet', hooks={
            'getattr': self.table, 'notnone': True}), z3.Const(
                'tables', z3.DeclareSort('O_TableSet')))

    def lists(self, E, seq, L0, node):
        """in any loop: the lists of nodes of the root and the like are as
        before, or, in a loop over nodes, get these"""
        at = [('BuiltNode.nodes', x) for x in self.kept]
        at = [(n_, x) for n_, x in at if n_ in L0]
        was = lambda n_, x: z3.Select(L0[n_][1], x)
        r = [('%s: as before, %s' % (n_, x), lambda p, L, n=n_, x=x:
              z3.Select(L[n][1], x) == was(n, x)) for n_, x in at]
        if seq is not None and seq.t == BNs:
            r += [('%s: more of them, %s' % (n_, x), lambda p, L, n=n_, x=x:
                   z3.Select(L[n][1], x) == E.cat(BNs, was(n, x), p))
                  for n_, x in at]
        return r

    def add(self, name, cols, key=None, texts={}, leaf=False,
            content=None):
        """a table; the nodes of its rows have no subnodes; or their
        content is given"""
        E = self.E
        t = row_type(E, cols, texts)
        s = E.const('table ' + name, TSeq(t))
        self.t[name], self.rows[name] = t, s
        k = self.kinds[name] = len(self.kinds) + 1
        nd = z3.Function('node of ' + name, t.sort(), B_)
        back = z3.Function('row of the node of ' + name, B_, t.sort())

        def node(r):
            """the node of the row (contract of to_node)"""
            x = nd(r)
            E.assume(z3.And(bkind(x) == k, back(x) == r))
            if leaf:
                E.assume(z3.Select(nodes0, x) == BNs.nil)
            return x

        def to_node(E, o, a, kw):
            if content is not None:
                return Sym(BN, content(o.e))
            g = ('uncons', 'made', o.e.sexpr())
            if g in E.st.ghost or ('uncons', 'dict', name) in E.st.ghost:
                raise Unsupported('two nodes of the same row')
            E.st.ghost[g] = True
            return Sym(BN, node(o.e))
        t.node, t.term = node, nd
        t.meths['to_node'] = to_node
        if key:
            t.key = key.split()
            self.add_dict(name)
        return t

    def add_dict(self, name):
        E, t = self.E, self.t[name]
        n_ = len(t.key)
        K = TTup(*[TStr] * n_)
        has = z3.Function('has key in ' + name, K.sort(), z3.BoolSort())
        at = z3.Function('row of ' + name, K.sort(), t.sort())
        d = TObj('Dict ' + name)

        def key_of(E, x):
            if isinstance(x, tuple) and len(x) == n_:
                return E.z(x, K)
            if isinstance(x, Sym) and x.t == K:
                return x.e
            return None

        def node(k):
            r = at(k)
            E.assume(z3.And([t.f[c](r) == K.get(k, i)
                             for i, c in enumerate(t.key)]))
            return t.node(r)

        def item(E, o, x):
            k = key_of(E, x)
            if k is None or not E.branch(has(k)):
                E.raise_('KeyError', x)
            return Sym(BN, node(k))

        def get(E, o, a, kw):
            k = key_of(E, a[0])
            if k is None or not E.branch(has(k)):
                return a[1] if len(a) > 1 else None
            return Sym(BN, node(k))

        def contains(E, o, x):
            k = key_of(E, x)
            return False if k is None else E.boolv(has(k))
        nodes = E.add_fold(Fold(
            'nodes of ' + name, t, BNs, BNs.nil, lambda a, x, p:
            BNs.rawsnoc(a, t.term(x))))

        def vals(E, o, a, kw):
            r = self.rows[name]
            if isinstance(r, list):
                return E.new_list([Sym(BN, t.node(x.e)) for x in r])
            return E.new_list(Sym(BNs, E.reg(BNs, nodes(r.e))))
        d.hooks = {'getitem': item, 'contains': contains, 'notnone': True}
        d.meths = {'get': get, 'values': vals, 'itervalues': vals}
        d.has, d.node, d.values, d.K = has, node, nodes, K
        d.term = lambda k: t.term(at(k))
        self.dicts[name] = d

    def nodedict(self, E, a, kw):
        c = E.content(a[0])
        for n_, d in self.dicts.items():
            r = self.rows[n_]
            if c is r or isinstance(c, Sym) and isinstance(r, Sym) and \
                    c.e.eq(r.e) or isinstance(c, list) and c and c == r:
                E.st.ghost['uncons', 'dict', n_] = True
                return Sym(d, z3.Const('dict ' + n_, d.sort()))
        raise Unsupported('the dictionary of another table')

    def table(self, E, o, a):
        if a.startswith('table') and a[5:] in self.rows:
            r = self.rows[a[5:]]
            return E.new_list(r)
        raise Unsupported('attribute %s of the tables' % a)

    def groups(self, name, cols):
        """the groups of the rows of a table with equal columns: the trusted
        contract of itertools.groupby"""
        E, t = self.E, self.t[name]
        cols = cols.split()
        G = TObj('Group of ' + name)
        key = [z3.Function('%s of the group' % c, G.sort(), S) for c in cols]
        items = z3.Function('rows of the group', G.sort(), TSeq(t).sort())
        gs = E.const('groups', TSeq(G))

        def pair(E, g):
            return E.new_list([E.new_list([Sym(TStr, k(g.e)) for k in key]),
                               E.new_list(Sym(TSeq(t), E.reg(
                                   TSeq(t), items(g.e))))])
        G.hooks = {'iter': pair, 'notnone': True}

        def hook(E, it, kf):
            c = E.content(it)
            if not (isinstance(c, Sym) and c.e.eq(self.rows[name].e)):
                raise Unsupported('groups of another table')
            x = E.fresh('row', t)
            k = E.content(E.call(kf, [x], {}))
            E.prove('the rows are grouped by %s' % ', '.join(cols),
                    isinstance(k, list) and len(k) == len(cols) and z3.And(
                        [E.z(a, TStr) == t.f[c_](x.e)
                         for a, c_ in zip(k, cols)]))
            return E.new_list(gs)
        E.externals['groupby'] = hook
        return gs, key, items

    def watch(self, over, want):
        """in loops over the groups: the states at the places looked at"""
        def tmpl(E, seq, L0, node):
            if seq is None:
                return []
            if seq.t != over:
                return [('%s: still %s' % (n_, f.name), lambda p, L, n=n_,
                         at=at: z3.Select(L[n][1], at) == z3.Select(
                             L0[n][1], at))
                        for a, at, f in want for n_ in arrays(L0, a)]
            return [('%s: %s' % (n_, f.name), lambda p, L, n=n_, at=at, f=f:
                     z3.Select(L[n][1], at) == f(p))
                    for a, at, f in want for n_ in arrays(L0, a)]
        self.E.templates.append(tmpl)

    def root(self, r, tag, attrib, text='', nodes=()):
        """the result is a node made with this content"""
        E = self.E
        E.prove('the model: its tag, attributes and subnodes',
                E.z(r, BN) == mk(E, tag, attrib, text, nodes))

    def number(self, E, seq, p, x, rest):
        """the numeric columns are numbers (they were validated)"""
        if seq.t == Strs and any(E.valid(seq.e == e)[0] == 'proved'
                                 for e in self.numbers):
            E.assume(float_ok(x))

    def run(self, cls):
        E = self.E
        E.externals['str.join'] = lambda E, o, c: Sym(TStr, joinf(
            E.z(o, TStr), E.z(c if isinstance(c, Sym) else E.new_list(
                c), Strs)))
        c = E.call(E.lookup_path('converter.' + cls), [self.tset], {})
        return E.call(E.getattr(c, 'to_node'), [], {})

    def column(self, name, c):
        t = self.t[name]
        return self.E.add_fold(Fold(
            'the column %s of %s' % (c, name), t, Strs, Strs.nil,
            lambda a, x, p: Strs.rawsnoc(a, t.f[c](x))))


nodes0 = z3.Const('BuiltNode.nodes@0', z3.ArraySort(B_, BNs.sort()))
text0 = z3.Const('BuiltNode.text@0', z3.ArraySort(B_, S))


def arrays(L0, a):
    return [n_ for n_ in L0 if n_ == 'BuiltNode.' + a]


def back_vulnerability(E):
    B = Tables(E)
    SET, FUN, DATA = ('DiscreteVulnerabilitySet', 'DiscreteVulnerability',
                      'DiscreteVulnerabilityData')
    sid, fid = 'vulnerabilitySetID', 'vulnerabilityFunctionID'
    B.add(SET, sid + ' assetCategory lossCategory IMT', sid)
    B.add(FUN, '%s %s probabilisticDistribution' % (sid, fid),
          sid + ' ' + fid)
    B.add(DATA, '%s %s IML lossRatio coefficientsVariation' % (sid, fid))
    gs, (ks, kf), items = B.groups(DATA, sid + ' ' + fid)
    Gt, dS, dF = gs.t.el, B.dicts[SET], B.dicts[FUN]
    E.externals['openquake.risklib.scientific.VulnerabilityFunction'] = \
        lambda E, a, k: None
    cols = dict((c, B.column(DATA, c)) for c in (
        'IML', 'lossRatio', 'coefficientsVariation'))
    s0, f0 = E.const('s', TStr).e, E.const('f', TStr).e
    kS, kF = dS.K.mk(s0), dF.K.mk(s0, f0)
    joined = lambda c, x: joinf(V(' '), cols[c](items(x)))
    mine = lambda x: ks(x) == s0
    fun = lambda x: z3.And(ks(x) == s0, kf(x) == f0)
    setn, funn = dS.term(kS), dF.term(kF)
    iml, lr, cv = [bchild(x, V(t)) for x, t in (
        (setn, 'IML'), (funn, 'lossRatio'), (funn, 'coefficientsVariation'))]

    def texts(name, at, test, c):
        return 'text', at, E.add_fold(Fold(
            name, Gt, TStr, z3.Select(text0, at), lambda a, x, p: z3.If(
                test(x), joined(c, x), a)))
    want = [
        texts('levels of the set', iml, mine, 'IML'),
        texts('ratios of the function', lr, fun, 'lossRatio'),
        texts('coefficients of the function', cv, fun,
              'coefficientsVariation'),
        ('nodes', setn, E.add_fold(Fold(
            'functions of the set', Gt, BNs, z3.Select(nodes0, setn),
            lambda a, x, p: z3.If(mine(x), BNs.rawsnoc(a, dF.term(
                dF.K.mk(ks(x), kf(x)))), a))))]
    B.watch(gs.t, want)

    def split(E, seq, p, x, rest):
        if seq.t == gs.t:
            # the keys of the rows refer to the other tables
            E.assume(z3.And(dS.has(dS.K.mk(ks(x))), dF.has(dF.K.mk(
                ks(x), kf(x)))))
            B.numbers = [f(items(x)) for f in cols.values()]
    E.split_hooks.append(split)

    def run():
        dS.node(kS), dF.node(kF)
        for x, t in ((setn, 'IML'), (funn, 'lossRatio'),
                     (funn, 'coefficientsVariation')):
            bn_child(E, x, t)
        r = B.run('Vulnerability')
        B.root(r, 'vulnerabilityModel', {}, nodes=dS.values(
            B.rows[SET].e))
        for a, at, f in want:
            E.prove('%s of any set and function' % f.name, z3.Select(
                E.array(BN, a), at) == f(gs.e))
        reach(E, 'end')
    return run


TASKS['C17'].append(Task('models of any tables', back_vulnerability, MODS,
                         covers=['end']))


def back_fragility(kind):
    disc = kind == 'Discrete'
    MOD, SET, DATA = 'Fragility' + kind, 'FFSet' + kind, 'FFData' + kind

    def t(E):
        B = Tables(E)
        mt = B.add(MOD, 'format description limitStates')
        B.add(SET, 'ordinal taxonomy noDamageLimit' + (
            '' if disc else ' type') + ' IMT imlUnit' + (
                '' if disc else ' minIML maxIML'), 'ordinal')
        dt = B.add(DATA, 'limitState ffs_ordinal ' + (
            'iml poe' if disc else 'param value'))
        gs, (ls, ks), items = B.groups(DATA, 'limitState ffs_ordinal')
        Gt, d = gs.t.el, B.dicts[SET]
        E.externals['openquake.risklib.scientific.FragilityFunction' + kind] \
            = lambda E, a, k: None
        o0 = E.const('ordinal', TStr).e
        k0 = d.K.mk(o0)
        setn = d.term(k0)
        root = z3.Const('model', mt.sort())
        iml = bchild(setn, V('IML'))
        mine = lambda x: ks(x) == o0
        if disc:
            cols = dict((c, B.column(DATA, c)) for c in ('iml', 'poe'))
            part = lambda x: mk(E, 'poEs', {}, joinf(
                V(' '), cols['poe'](items(x))))
        else:
            pars = E.add_fold(Fold(
                'parameters', dt, MAP, attr_map(E, {}), lambda a, x, p:
                MAP.mk(z3.Store(MAP.has(a), dt.f['param'](x), T), z3.Store(
                    MAP.val(a), dt.f['param'](x), dt.f['value'](x)))))
            part = lambda x: mkf(V('params'), pars(items(x)), V(''),
                                 BNs.nil)
        fun = lambda x: mk(E, 'ffd' if disc else 'ffc', {
            'ls': ls(x)}, '', [part(x)])
        want = [('nodes', setn, E.add_fold(Fold(
            'functions of the set', Gt, BNs, z3.Select(nodes0, setn),
            lambda a, x, p: z3.If(mine(x), BNs.rawsnoc(a, fun(x)), a))))]
        if disc:
            want.append(('text', iml, E.add_fold(Fold(
                'levels of the set', Gt, TStr, z3.Select(text0, iml),
                lambda a, x, p: z3.If(mine(x), joinf(
                    V(' '), cols['iml'](items(x))), a)))))
        all_ = lambda: E.cat(BNs, z3.Select(nodes0, mt.term(root)), d.values(
            B.rows[SET].e))
        B.watch(gs.t, want)
        B.kept = [mt.term(root)]

        def split(E, seq, p, x, rest):
            if seq.t == gs.t:
                # the sets of the data are in their table; the parameters
                # of a continuous function are mean and stddev, numbers
                E.assume(d.has(d.K.mk(ks(x))))
                if not disc:
                    m = pars(items(x))
                    for c in 'mean', 'stddev':
                        E.assume(z3.And(z3.Select(MAP.has(m), V(c)),
                                        float_ok(z3.Select(MAP.val(m), V(
                                            c)))))
        E.split_hooks.append(split)

        def run():
            d.node(k0), bn_child(E, setn, 'IML')
            # there is one model
            B.rows[MOD] = [Sym(mt, root)]
            mt.node(root)
            r = B.run(MOD)
            E.prove('the node of the model', E.z(r, BN) == mt.term(root))
            E.prove('the sets follow its other nodes', z3.Select(
                E.array(BN, 'nodes'), mt.term(root)) == all_())
            for a, at, f in want:
                E.prove('%s of any set' % f.name, z3.Select(
                    E.array(BN, a), at) == f(gs.e))
            reach(E, 'end')
        return run
    return Task('%s models of any tables' % kind.lower(), t, MODS,
                covers=['end'])


TASKS['C18'] += [back_fragility(k) for k in ('Discrete', 'Continuous')]


def back_gmf(single):
    def t(E):
        B = Tables(E)
        ct = B.add('GmfCollection', 'sourceModelTreePath gsimTreePath')
        SET, DATA = 'GmfSet', 'GmfData'
        sid = 'stochasticEventSetId'
        st = B.add(SET, sid + ' investigationTime', sid)
        dt = B.add(DATA, sid + ' imtStr ruptureId lon lat gmv',
                   content=lambda r: point(r))
        gs, (ks, imt, rup), items = B.groups(DATA, sid + ' imtStr ruptureId')
        Gt, d = gs.t.el, B.dicts[SET]
        # the period of a spectral acceleration SA(period)
        per = z3.Function('period', S, S)
        sa = lambda x: z3.PrefixOf(V('SA'), imt(x))
        s0 = E.const('set', TStr).e
        k0 = d.K.mk(s0)
        setn = d.term(k0)
        root, only = z3.Const('collection', ct.sort()), z3.Const(
            'the set', st.sort())
        point = lambda x: mk(E, 'node', dict((c, dt.f[c](x)) for c in (
            'lon', 'lat', 'gmv')))
        pts = E.add_fold(Fold(
            'points', dt, BNs, BNs.nil, lambda a, x, p: BNs.rawsnoc(
                a, point(x))))

        def field(x):
            def of(attrs):
                return z3.If(rup(x) == V(''), mk(
                    E, 'gmf', attrs, '', pts(items(x))), mk(
                        E, 'gmf', dict(attrs, ruptureId=rup(x)), '', pts(
                            items(x))))
            return z3.If(sa(x), of({'IMT': 'SA', 'saPeriod': per(imt(x)),
                                    'saDamping': '5'}), of({'IMT': imt(x)}))
        want = E.add_fold(Fold(
            'fields of the set', Gt, BNs, z3.Select(nodes0, setn),
            lambda a, x, p: z3.If(ks(x) == s0, BNs.rawsnoc(a, field(x)),
                                  a)))
        B.watch(gs.t, [('nodes', setn, want)])
        if not single:
            B.kept = [ct.term(root)]

        def split(E, seq, p, x, rest):
            if seq.t == gs.t:
                E.assume(d.has(d.K.mk(ks(x))))
                if E.branch(sa(x)):
                    E.assume(imt(x) == z3.Concat(V('SA('), per(imt(x)), V(
                        ')')))
                    E.assume(z3.SubString(imt(x), 3, z3.Length(
                        imt(x)) - 4) == per(imt(x)))
                E.branch(rup(x) == V(''))
        E.split_hooks.append(split)

        def run():
            d.node(k0)
            B.rows['GmfCollection'] = [] if single else [Sym(ct, root)]
            if single:
                B.rows[SET] = [Sym(st, only)]
            else:
                ct.node(root)
            r = B.run('GmfCollection')
            if single:
                E.prove('the node of the set', E.z(r, BN) == st.term(only))
            else:
                E.prove('the node of the collection', E.z(
                    r, BN) == ct.term(root))
                E.prove('the sets in their order', z3.Select(E.array(
                    BN, 'nodes'), ct.term(root)) == E.cat(BNs, z3.Select(
                        nodes0, ct.term(root)), d.values(B.rows[SET].e)))
            E.prove('the fields of any set', z3.Select(E.array(
                BN, 'nodes'), setn) == want(gs.e))
            reach(E, 'end')
        return run
    return Task('%s of any tables' % ('single set' if single else
                                      'collections'), t, MODS,
                covers=['end'])


TASKS['C20'] += [back_gmf(k) for k in (False, True)]


def back_exposure(E):
    B = Tables(E)
    xt = B.add('Exposure', 'id category taxonomySource description area_type '
               'area_unit deductible_is_absolute insurance_limit_is_absolute',
               texts={'area_type': True, 'area_unit': True})
    ct = B.add('CostType', 'name type unit retrofittedType retrofittedUnit',
               'name', texts={'name': False})
    lt = B.add('Location', 'id lon lat', 'id')
    ut = B.add('Cost', 'asset_ref type value retrofitted deductible '
               'insurance_limit', 'asset_ref type')
    ot = B.add('Occupancy', 'asset_ref period occupants', 'asset_ref period',
               texts={'period': False})
    at = B.add('Asset', 'location_id asset_ref taxonomy number area',
               leaf=True)
    dl, du, do, dc = [B.dicts[n_] for n_ in (
        'Location', 'Cost', 'Occupancy', 'CostType')]
    assets = B.rows['Asset']
    PS = E.const('periods', Strs)
    periods = E.add_fold(Fold(
        'periods in use', ot, TSet(TStr), z3.K(S, F), lambda a, x, p:
        z3.Store(a, ot.f['period'](x), T)))
    names = B.column('CostType', 'name')
    an = E.add_fold(Fold('nodes of the assets', at, BNs, BNs.nil,
                         lambda a, x, p: BNs.rawsnoc(a, at.term(x))))

    def found(name, d, second):
        """the entries of the asset, in the order of the other keys"""
        return E.add_fold(Fold(
            name, TStr, BNs, BNs.nil, lambda a, x, p, ref: z3.If(
                d.has(d.K.mk(ref, x)), BNs.rawsnoc(a, d.term(
                    d.K.mk(ref, x))), a), params=[TStr]))
    costs = found('costs', du, 'type')
    occs = found('occupancies', do, 'period')
    ref = at.f['asset_ref']
    loc = lambda x: dl.K.mk(at.f['location_id'](x))
    root = z3.Const('exposure', xt.sort())
    K0 = E.const('asset', at).e
    mem = E.memfold(TSeq(at))
    cat_ = z3.Const('category', S)
    cur = {}

    def types():
        return z3.If(cat_ == V('buildings'), names(
            B.rows['CostType'].e), Strs.nil)

    def parts(x):
        e = BNs.rawsnoc(BNs.nil, dl.term(loc(x)))
        for tag, f, over in (('costs', costs, types()),
                             ('occupancies', occs, cur['periods'])):
            sub = f(over, ref(x))
            e = z3.If(sub == BNs.nil, e, BNs.rawsnoc(e, mk(
                E, tag, {}, '', sub)))
        return e

    def order(E, c, key, reverse):
        of = E.st.ghost.get(('uncons', 'elems', c.e.sexpr()))
        E.prove('the different periods of the occupancies', of is not None
                and of == periods(B.rows['Occupancy'].e))
        return E.new_list(Sym(Strs, cur['periods']))

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != TSeq(at):
            return []
        return [('%s: the parts of any asset so far' % n_, lambda p, L, n=n_:
                 z3.Implies(mem(p, K0), z3.Select(L[n][1], at.term(
                     K0)) == parts(K0))) for n_ in arrays(L0, 'nodes')] + [
            ('%s: no parts of other assets' % n_, lambda p, L, n=n_:
             z3.Implies(z3.Not(mem(p, K0)), z3.Select(L[n][1], at.term(
                 K0)) == BNs.nil)) for n_ in arrays(L0, 'nodes')] + [
            ('%s: the nodes of the assets so far' % n_, lambda p, L, n=n_:
             z3.Select(L[n][1], where) == an(p))
            for n_ in arrays(L0, 'nodes')]
    E.templates.append(tmpl)
    conv_, where = [bchild(xt.term(root), V(a)) for a in (
        'conversions', 'assets')]
    ctypes_ = bchild(conv_, V('costTypes'))
    B.kept = [xt.term(root), ctypes_]

    def split(E, seq, p, x, rest):
        if seq.t == TSeq(at):
            # the rows of a table are different objects
            E.assume(z3.And(dl.has(loc(x)), z3.Not(mem(p, x))))
            E.assume(mem(seq.e, K0) == z3.Or(mem(p, K0), x == K0, mem(
                rest, K0)))
            costs.insts = occs.insts = [(ref(x),)]
            E.branch(x == K0)
    E.split_hooks.append(split)

    def run():
        E.externals['sorted'] = order
        # no occupancies, no periods
        cur['periods'] = Strs.nil if E.branch(
            B.rows['Occupancy'].e == TSeq(ot).nil) else PS.e
        B.rows['Exposure'] = [Sym(xt, root)]
        x = xt.node(root)
        at.node(K0)
        E.assume(battr(x, V('category')) == cat_)
        houses = E.branch(cat_ == V('buildings'))
        conv = bn_child(E, x, 'conversions')
        ctypes = bn_child(E, conv, 'costTypes')
        bn_child(E, x, 'assets')
        # contract of the node of the record
        E.assume(z3.And([z3.Select(nodes0, o) == BNs.nil for o in (
            ctypes, where)]))
        r = B.run('Exposure')
        nodes = lambda o: z3.Select(E.array(BN, 'nodes'), o)
        E.prove('the node of the exposure', E.z(r, BN) == x)
        E.prove('a node for each asset, in their order', nodes(
            where) == an(assets.e))
        E.assume(mem(assets.e, K0))
        E.assume(assets.e != assets.t.nil)      # one of them
        E.prove('the parts of any asset', nodes(at.term(K0)) == parts(K0))
        if houses:
            E.prove('the cost types', nodes(ctypes) == dc.values(
                B.rows['CostType'].e))
            E.prove('nothing else', nodes(x) == z3.Select(nodes0, x))
            reach(E, 'buildings')
        else:
            typ, unit = [xt.f['area_' + c](root) for c in ('type', 'unit')]
            if E.branch(z3.And(typ != V(''), unit != V(''))):
                hd, tl = first_rest(E, z3.Select(nodes0, x))
                E.prove('the area follows the description', nodes(
                    x) == E.cat(BNs, BNs.rawsnoc(BNs.rawsnoc(
                        BNs.nil, hd), mk(E, 'conversions', {}, '', [mk(
                            E, 'area', {'type': typ, 'unit': unit})])), tl))
                reach(E, 'area')
            else:
                E.prove('nothing else', nodes(x) == z3.Select(nodes0, x))
        reach(E, 'end')
    return run


TASKS['C19'].append(Task('models of any tables', back_exposure, MODS,
                         covers=['end', 'buildings', 'area']))
