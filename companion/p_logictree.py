"""Logic trees."""
import os
import re
import random
import shutil
import tempfile
import itertools
from decimal import Decimal
from xml.sax.saxutils import quoteattr, escape
from run import raises
from openquake.commonlib import logictree as L
from openquake.hazardlib import source as S, mfd as M

NS = 'http://openquake.org/xmlns/nrml/0.4'


def weights(r, n):
    """n positive decimals summing to 1"""
    cuts = sorted(r.sample(range(1, 100), n - 1))
    if n > 1 and r.random() < .15:
        cuts[0] = 0
    ps = [b - a for a, b in zip([0] + cuts, cuts + [100])]
    return [Decimal(p) / 100 for p in ps]


def tree(r, depth, counter, exact=True):
    """a random branch set with children (possibly shared)"""
    bset = L.BranchSet('maxMagGRRelative', {})
    n = r.randrange(1, 4)
    ws = weights(r, n) if exact else [
        Decimal(r.choice(['0', '0.5', '1', '2'])) for _ in range(n)]
    shared = tree(r, depth - 1, counter, exact) if depth and \
        r.random() < .4 else None
    for w in ws:
        counter[0] += 1
        b = L.Branch(r.choice(['b%d' % counter[0], '']) or
                     'x%d' % counter[0], w, r.choice([0, 'v', None, '']))
        if depth and r.random() < .7:
            b.child_branchset = shared or tree(r, depth - 1, counter, exact)
        bset.branches.append(b)
    return bset


def paths(bset):
    for b in bset.branches:
        if b.child_branchset is None:
            yield b.weight, [b]
        else:
            for w, p in paths(b.child_branchset):
                yield b.weight * w, [b] + p


def bare(root, seed=0, num_samples=0):
    t = object.__new__(L.SourceModelLogicTree)
    t.root_branchset, t.seed, t.num_samples = root, seed, num_samples
    return t


def show(bset):
    return [(b.branch_id, str(b.weight), b.value,
             b.child_branchset and show(b.child_branchset))
            for b in bset.branches]


def C29(ctx):
    ctx.rule = ('random trees of branch sets up to 4 levels, child branch '
                'sets shared or not, weights summing to 1 or not')
    r = ctx.rng
    for trial in range(ctx.n(1000, 10000)):
        if not ctx.time_left():
            break
        exact = r.random() < .7
        root = tree(r, r.randrange(4), [0], exact)
        exp = list(paths(root))

        def f():
            got = list(root.enumerate_paths())
            if [[id(b) for b in p] for w, p in got] != [
                    [id(b) for b in p] for w, p in exp]:
                return 'paths %r, expected %r' % (
                    [[b.branch_id for b in p] for w, p in got],
                    [[b.branch_id for b in p] for w, p in exp])
            if [w for w, p in got] != [w for w, p in exp]:
                return 'weights %r, expected %r' % (
                    [w for w, p in got], [w for w, p in exp])
            if exact and sum(w for w, p in got) != 1:
                return 'the weights do not sum to 1'

        def g():
            got = list(bare(root))
            want = [(p[0].value, w, tuple(b.branch_id for b in p))
                    for w, p in exp]
            if [tuple(x) for x in got] != want:
                return 'realizations %r, expected %r' % (got, want)
            if [(x.value, x.weight, x.lt_path) for x in got] != want:
                return 'attributes of %r' % got
        inp = show(root)
        ctx.check('all paths once, in order, with their weights', inp, f)
        ctx.check('the realizations are the paths', inp, g)


class Dice(object):
    def __init__(self, draws):
        self.draws = list(draws)
        self.count = 0

    def random(self):
        self.count += 1
        return self.draws.pop(0)


def C30(ctx):
    ctx.rule = ('random branch sets and draws (exact interval borders '
                'included), random trees and seeds')
    r = ctx.rng
    for trial in range(ctx.n(1000, 10000)):
        if not ctx.time_left():
            break
        root = tree(r, r.randrange(4), [0])
        bs = root.branches
        cums = []
        for b in bs:
            cums.append((cums[-1] if cums else 0) + b.weight)
        n = r.randrange(4)
        draws = [r.choice([0., .25, .5, .75, r.random(), .999,
                           float(cums[0]), r.randrange(100) / 100.])
                 for _ in range(n)]

        def pick(d):
            return [b for b, c in zip(bs, cums) if c >= d][0]

        def f():
            dice = Dice(draws)
            got = L.sample(bs, n, dice)
            if [id(b) for b in got] != [id(pick(d)) for d in draws]:
                return 'got %r' % [b.branch_id for b in got]
            if dice.count != n:
                return '%d draws' % dice.count

        def g():
            d = r.random()
            if L.sample_one(bs, Dice([d])) is not pick(d):
                return 'wrong branch for %r' % d

        seed, num = r.randrange(5), r.randrange(1, 5)
        if trial % 100 == 7:
            num = 300

        def h():
            got = [list(bare(root, seed, num)) for _ in range(2)]
            if got[0] != got[1]:
                return 'not reproducible'
            if len(got[0]) != num:
                return '%d samples instead of %d' % (len(got[0]), num)
            rnd = random.Random(seed)
            for name, weight, path in got[0]:
                bset, ids, first = root, [], None
                while bset is not None:
                    d, acc = rnd.random(), 0
                    for b in bset.branches:
                        acc += b.weight
                        if acc >= d:
                            break
                    first = first or b
                    ids.append(b.branch_id)
                    bset = b.child_branchset
                if (name, path) != (first.value, tuple(ids)):
                    return 'sample %r, expected %r' % (
                        (name, path), (first.value, ids))
                if weight is not None:
                    return 'weight %r' % weight
        inp = show(root), draws, seed, num
        ctx.check('n draws, n branches by cumulative weight', inp, f)
        ctx.check('one draw', inp, g)
        ctx.check('sampled paths', inp, h)


# ----------------------------------------------------------- documents

def xml(levels, pad=''):
    out = ['<?xml version="1.0" encoding="UTF-8"?>',
           '<nrml xmlns="%s"><logicTree logicTreeID="lt">' % NS]
    for i, level in enumerate(levels):
        out.append('<logicTreeBranchingLevel branchingLevelID="bl%d">' % i)
        for bs in level:
            out.append('<logicTreeBranchSet %s>' % ' '.join(
                '%s=%s' % (k, quoteattr(v))
                for k, v in sorted(bs['attrs'].items())))
            for bid, w, v in bs['branches']:
                out.append(
                    '<logicTreeBranch branchID=%s><uncertaintyModel>%s%s%s'
                    '</uncertaintyModel><uncertaintyWeight>%s%s%s'
                    '</uncertaintyWeight></logicTreeBranch>' % (
                        quoteattr(bid), pad, escape(v), pad, pad, w, pad))
            out.append('</logicTreeBranchSet>')
        out.append('</logicTreeBranchingLevel>')
    out.append('</logicTree></nrml>')
    return '\n'.join(out)


def source_model(sources):
    return ('<?xml version="1.0"?><nrml xmlns="%s"><sourceModel>' % NS +
            ''.join('<%sSource id="%s" tectonicRegion="%s"><geo/>'
                    '</%sSource>\n' % (t, i, trt, t)
                    for t, i, trt in sources) + '</sourceModel></nrml>')


MODELS = {
    'sm1.xml': [('point', '1', 'Active'), ('area', 's 2', 'Stable')],
    'sm2.xml': [('simpleFault', '3', 'Active'), ('point', '1', 'Active'),
                ('characteristicFault', 'ch', 'Volcanic')],
    'empty.xml': []}
FLOAT = re.compile(r'[+-]?(\d+|\d*\.\d+)\Z')


class Bad(Exception):
    pass


def check_source_set(known, depth, number, attrs):
    """the rules for a branch set of a source model tree"""
    ids, types, regions = known
    t = attrs['uncertaintyType']
    filt = dict((k, v) for k, v in attrs.items()
                if k.startswith('applyTo') and k != 'applyToBranches')
    if t == 'sourceModel' and filt:
        raise Bad('filters on a source model')
    if len(filt) > 1:
        raise Bad('several filters')
    if filt.get('applyToTectonicRegionType', None) not in \
            regions | set([None]):
        raise Bad('unknown region')
    if filt.get('applyToSourceType', None) not in types | set([None]):
        raise Bad('unknown source type')
    srcs = filt.get('applyToSources', '').split()
    if not set(srcs) <= ids:
        raise Bad('unknown source')
    if t in ('abGRAbsolute', 'maxMagGRAbsolute') and len(srcs) != 1:
        raise Bad('absolute uncertainty without its source')
    if depth == 0 and (number > 0 or t != 'sourceModel'):
        raise Bad('bad first level')
    if depth and t in ('sourceModel', 'gmpeModel'):
        raise Bad('bad type %s' % t)


def value_of(t, text, validate):
    if t == 'sourceModel':
        return text
    words = text.split()
    if t == 'abGRAbsolute':
        if validate and not (len(words) == 2 and
                             FLOAT.match(words[0]) and
                             FLOAT.match(words[1])):
            raise Bad('not a pair')
        return float(words[0]), float(words[1])
    if validate and not FLOAT.match(text):
        raise Bad('not a number')
    return float(text)


def expected(kind, levels, validate, regions=()):
    """the tree the document describes, or raises Bad:
    (root index, {branch id: (weight, value)}, [ids per set],
    {branch id: child set index})"""
    seen, sets, child, opens = {}, [], {}, []
    known = (set(), set(), set())
    defined = set()
    for depth, level in enumerate(levels):
        new = []
        for number, bs in enumerate(level):
            attrs = bs['attrs']
            t = attrs['uncertaintyType']
            trt = attrs.get('applyToTectonicRegionType')
            if kind == 'gm':
                if trt is not None and trt not in regions:
                    continue
                if validate:
                    filt = [k for k in attrs if k in (
                        'applyToTectonicRegionType', 'applyToSources',
                        'applyToSourceType')]
                    if filt != ['applyToTectonicRegionType']:
                        raise Bad('filters')
                    if trt in defined:
                        raise Bad('region twice')
                    defined.add(trt)
                    if t != 'gmpeModel' or number:
                        raise Bad('type or number')
            elif validate:
                check_source_set(known, depth, number, attrs)
            total = Decimal(0)
            index = len(sets)
            sets.append([])
            for bid, w, v in bs['branches']:
                total += Decimal(w)
                if kind == 'gm':
                    if v not in L.GSIM and validate:
                        raise Bad('unknown gsim')
                    val = L.GSIM[v]
                else:
                    if t == 'sourceModel' and validate:
                        for st, sid, reg in MODELS[v]:
                            known[0].add(sid)
                            known[1].add(st)
                            known[2].add(reg)
                    val = value_of(t, v, validate)
                if bid in seen:
                    raise Bad('identifier twice')
                seen[bid] = (Decimal(w), val)
                sets[index].append(bid)
            if total != 1:
                raise Bad('sum')
            if index:
                named = attrs.get('applyToBranches', '').split() \
                    if kind == 'sm' else []
                if named:
                    for bid in named:
                        if bid not in seen or bid in child or \
                                bid not in opens:
                            raise Bad('cannot attach to %s' % bid)
                        child[bid] = index
                else:
                    for bid in opens:
                        child[bid] = index
            new += sets[index]
        if new:
            opens = new
    if kind == 'gm' and validate and set(regions) - defined:
        raise Bad('missing regions')
    return sets, seen, child


REGIONS = ['Active', 'Stable', 'Volcanic', '', 'Deep']


def gen_levels(r, kind):
    levels, count, prev = [], [0], []
    regs = REGIONS[:]
    r.shuffle(regs)
    perr = r.choice([0, 0, .05, .15])

    def err():
        return r.random() < perr
    last = []
    for depth in range(r.randrange(1, 5)):
        level, new = [], []
        nsets = 1
        if kind == 'sm' and depth and r.random() < .4 or err():
            nsets = r.randrange(1, 4)
        pool = last[:]
        r.shuffle(pool)
        for number in range(nsets):
            attrs = {'branchSetID': 'bs%d%d' % (depth, number)}
            if kind == 'gm':
                t = 'gmpeModel' if not err() else r.choice(
                    ['sourceModel', 'bGRRelative'])
                if not err():
                    attrs['applyToTectonicRegionType'] = regs.pop() \
                        if regs and not err() else r.choice(REGIONS)
                if err():
                    attrs['applyToSources'] = '1'
            else:
                t = 'sourceModel' if depth == 0 else r.choice(
                    ['bGRRelative', 'maxMagGRRelative', 'maxMagGRAbsolute',
                     'abGRAbsolute'])
                if err():
                    t = r.choice(['gmpeModel', 'sourceModel',
                                  'bGRRelative', 'abGRAbsolute'])
                if t.endswith('Absolute'):
                    attrs['applyToSources'] = '1' if not err() else \
                        r.choice(['', '1 3', '1 1', 'ch', '9'])
                elif t != 'sourceModel' and r.random() < .5 or err():
                    k, vs = r.choice([
                        ('applyToSources', ['1', '1 3', ' 1  ch ', '', '3',
                                            's']),
                        ('applyToSourceType', ['point', 'area', '',
                                               'simpleFault']),
                        ('applyToTectonicRegionType', REGIONS)])
                    attrs[k] = r.choice(vs)
                    if err():
                        attrs['applyToSourceType'] = 'point'
                if depth and (nsets > 1 or r.random() < .3):
                    take = [pool.pop() for _ in range(
                        r.randrange(1, 3)) if pool]
                    if err():
                        take.append(r.choice(
                            [b for b, w, v in prev] + ['zz']))
                    if take or r.random() < .5:
                        attrs['applyToBranches'] = ' '.join(take)
            attrs['uncertaintyType'] = t
            n = r.randrange(1, 4)
            ws = [str(w) for w in weights(r, n)]
            if err():
                ws[0] = r.choice(['0.1', '1', '0', '1.0000001', '-1'])
            branches = []
            for w in ws:
                count[0] += 1
                bid = 'b%d' % count[0]
                if err():
                    bid = r.choice([b for b, _, _ in prev] + ['b1', ''])
                if kind == 'gm':
                    v = r.choice(sorted(L.GSIM)) if not err() else 'Nope'
                elif t == 'sourceModel':
                    v = r.choice(sorted(MODELS))
                elif t == 'abGRAbsolute':
                    v = r.choice(['1 2', '-1.5  +.5', '0 0']) \
                        if not err() else r.choice(
                            ['1', '1 2 3', 'a b', '1 2.', '1 1e3'])
                else:
                    v = r.choice(['1', '-0.5', '+.25', '0']) \
                        if not err() else r.choice(
                            ['x', '1 2', '5.', '1e3', 'nan', '- 1',
                             '--1', '1.2.3'])
                branches.append((bid, w, v))
            prev += branches
            new += [b for b, w, v in branches]
            level.append({'attrs': attrs, 'branches': branches})
        if err() and r.random() < .3:
            level = []
        if level:
            last = new
        levels.append(level)
    return levels


def structure(root):
    """(sets in order of discovery by identity) of a parsed tree"""
    out, todo, names = [], [root], {}
    while todo:
        bset = todo.pop(0)
        if bset is None or id(bset) in names:
            continue
        names[id(bset)] = len(out)
        out.append(bset)
        todo += [b.child_branchset for b in bset.branches]
    return out


class Files(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='pydv-lt-')
        for name, srcs in MODELS.items():
            with open(os.path.join(self.dir, name), 'w') as f:
                f.write(source_model(srcs))
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir)


def parse(kind, d, text, validate, regions):
    if kind == 'sm':
        return L.SourceModelLogicTree(text, d, 'lt.xml', validate=validate)
    return L.GMPELogicTree(regions, text, d, 'lt.xml', validate=validate)


def compare(lt, kind, levels, exp):
    sets, seen, child = exp
    if set(lt.branches) != set(seen):
        return 'branches %r, expected %r' % (
            sorted(lt.branches), sorted(seen))
    for bid, (w, v) in seen.items():
        b = lt.branches[bid]
        if b.branch_id != bid or b.weight != w or b.value != v or \
                type(b.value) is not type(v):
            return 'branch %r: %r %r instead of %r %r' % (
                bid, b.weight, b.value, w, v)
    if not sets:
        if lt.root_branchset is not None:
            return 'unexpected root'
        return
    if lt.root_branchset is None:
        return 'no root'
    if [b.branch_id for b in lt.root_branchset.branches] != sets[0]:
        return 'root branches'
    for bid in seen:
        b = lt.branches[bid]
        c = b.child_branchset
        if bid in child:
            if c is None:
                return 'no child for %r' % bid
            ids = [x.branch_id for x in c.branches]
            if ids != sets[child[bid]]:
                return 'child of %r has branches %r, expected %r' % (
                    bid, ids, sets[child[bid]])
            if [lt.branches[i] is x for i, x in zip(
                    ids, c.branches)] != [True] * len(ids):
                return 'branches of the child of %r' % bid
        elif c is not None:
            return 'unexpected child of %r: %r' % (
                bid, [x.branch_id for x in c.branches])


def documents(ctx, clause, cases):
    r = ctx.rng
    with Files() as files:
        for trial in range(ctx.n(cases)):
            if not ctx.time_left():
                break
            kind = r.choice(['sm', 'gm'])
            levels = gen_levels(r, kind)
            used = [bs['attrs'].get('applyToTectonicRegionType')
                    for lev in levels for bs in lev]
            regions = [x for x in set(used) if x is not None]
            if r.random() < .4:
                regions = r.sample(REGIONS, r.randrange(1, 5))
            validate = r.random() < .7
            text = xml(levels, r.choice(['', ' ', '\n  ']))

            try:
                if not validate:
                    for lev in levels:
                        for bs in lev:
                            for b, w, v in bs['branches']:
                                if kind == 'gm':
                                    L.GSIM[v]
                                else:
                                    value_of(bs['attrs']['uncertaintyType'],
                                             v, True)
            except (Bad, KeyError):
                continue   # a value not validated: out of scope

            def f():
                try:
                    exp = expected(kind, levels, validate, regions)
                except Bad as e:
                    exp = e
                if isinstance(exp, Exception):
                    bad = raises(L.ValidationError, parse, kind, files.dir,
                                 text, validate, regions)
                    return bad and '%s (%s)' % (bad, exp)
                lt = parse(kind, files.dir, text, validate, regions)
                return compare(lt, kind, levels, exp)
            ctx.check(clause, (kind, validate, sorted(regions), levels), f)


def C31(ctx):
    ctx.rule = ('random documents of both kinds, errors planted in '
                'identifiers, weights (zero included) and values')
    documents(ctx, 'branches of the document, or a ValidationError', 1800)


def C32(ctx):
    ctx.rule = ('random documents with several levels and sets, branches '
                'named or not, skipped levels')
    documents(ctx, 'the tree of the document, or a ValidationError', 1200)
    r = ctx.rng
    for trial in range(ctx.n(300)):
        t = object.__new__(L.GMPELogicTree)
        bs = [L.Branch('b%d' % i, Decimal(1), i) for i in range(4)]
        t.branches = dict((b.branch_id, b) for b in bs)
        t.open_ends = set(r.sample(bs, r.randrange(5)))
        before = set(t.open_ends)
        new = L.BranchSet('gmpeModel', {})

        def f():
            t.apply_branchset(None, new)
            for b in bs:
                if (b.child_branchset is new) != (b in before):
                    return 'branch %s' % b.branch_id
        ctx.check('all open ends', sorted(b.branch_id for b in before), f)


# ------------------------------------------------------- uncertainties

def sources(r):
    out = []
    for cls in (S.PointSource, S.AreaSource, S.SimpleFaultSource,
                S.ComplexFaultSource, S.CharacteristicFaultSource):
        s = object.__new__(cls)
        s.source_id = r.choice(['1', '2', '12', ''])
        s.tectonic_region_type = r.choice(['Active', 'Stable', ''])
        s.mfd = r.choice([
            M.TruncatedGRMFD(5., 7., .1, 1., 1.),
            M.EvenlyDiscretizedMFD(5., .1, [1.])])
        out.append(s)
    return out


KINDS = {'point': 'PointSource', 'area': 'AreaSource',
         'simpleFault': 'SimpleFaultSource',
         'complexFault': 'ComplexFaultSource',
         'characteristicFault': 'CharacteristicFaultSource'}
MODIF = {'abGRAbsolute': lambda v: ('set_ab', dict(a_val=v[0], b_val=v[1])),
         'bGRRelative': lambda v: ('increment_b', dict(value=v)),
         'maxMagGRRelative': lambda v: ('increment_max_mag', dict(value=v)),
         'maxMagGRAbsolute': lambda v: ('set_max_mag', dict(value=v))}


def applies(filters, s):
    for k, v in filters.items():
        if k == 'applyToTectonicRegionType':
            ok = s.tectonic_region_type == v
        elif k == 'applyToSourceType':
            ok = type(s).__name__ == KINDS[v]
        else:
            ok = s.source_id in v
        if not ok:
            return False
    return True


def rand_filters(r):
    f = {}
    if r.random() < .5:
        f['applyToTectonicRegionType'] = r.choice(['Active', 'Stable', ''])
    if r.random() < .5:
        f['applyToSourceType'] = r.choice(sorted(KINDS))
    if r.random() < .4:
        f['applyToSources'] = r.sample(['1', '2', '12', ''], r.randrange(4))
    return f


def C33(ctx):
    ctx.rule = ('random filters, source classes, magnitude distributions '
                'and values; random trees walked by branch identifiers')
    r = ctx.rng
    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        filt = rand_filters(r)
        t = r.choice(sorted(MODIF))
        value = (r.choice([0., 1.5]), 2.) if t.startswith('ab') \
            else r.choice([0., -1.5, 2])
        bset = L.BranchSet(t, filt)
        srcs = sources(r)

        def f():
            for s in srcs:
                exp = applies(filt, s)
                got = bset.filter_source(s)
                if got is not exp:
                    return '%s %r: %r instead of %r' % (
                        type(s).__name__, s.source_id, got, exp)
                mfd = s.mfd
                bset.apply_uncertainty(value, s)
                mods = getattr(s.mfd, 'modified', [])
                want = [MODIF[t](value)] if exp and isinstance(
                    mfd, M.TruncatedGRMFD) else []
                if mods != want or s.mfd is not mfd:
                    return '%s: %r instead of %r' % (
                        type(s).__name__, mods, want)
        ctx.check('exactly the sources the filters select',
                  (filt, t, value, [(type(s).__name__, s.source_id,
                                     s.tectonic_region_type,
                                     type(s.mfd).__name__) for s in srcs]),
                  f)
    for trial in range(ctx.n(300, 3000)):
        if not ctx.time_left():
            break
        root = typed(r, 3, [0], True)
        path = r.choice([p for w, p in paths(root)])
        srcs = sources(r)
        lt = bare(root)

        def g():
            ids = [b.branch_id for b in path]
            fn = lt.make_apply_uncertainties(r.choice([tuple, list])(ids))
            for s in srcs:
                fn(s)
                want, bset = [], root
                for b in path:
                    if bset.uncertainty_type != 'sourceModel' and \
                            isinstance(s.mfd, M.TruncatedGRMFD) and \
                            applies(bset.filters, s):
                        want.append(MODIF[bset.uncertainty_type](b.value))
                    bset = b.child_branchset
                got = getattr(s.mfd, 'modified', [])
                if got != want:
                    return '%s: %r instead of %r' % (
                        type(s).__name__, got, want)
            if ids != [b.branch_id for b in path]:
                return 'the identifiers were changed'
        ctx.check('the uncertainties of a path, from the root',
                  (show(root), [b.branch_id for b in path]), g)


def typed(r, depth, counter, top):
    t = 'sourceModel' if top else r.choice(sorted(MODIF))
    bset = L.BranchSet(t, {} if top else rand_filters(r))
    for w in weights(r, r.randrange(1, 4)):
        counter[0] += 1
        v = 'sm' if top else (
            (r.random(), 1.) if t.startswith('ab') else r.random())
        b = L.Branch('b%d' % counter[0], w, v)
        if depth and r.random() < .8:
            b.child_branchset = typed(r, depth - 1, counter, False)
        bset.branches.append(b)
    return bset


def C34(ctx):
    ctx.rule = ('random documents of both kinds with planted errors, '
                'validated')
    documents(ctx, 'validation', 1500)
    r = ctx.rng
    pool = ['1', '-1.5', '+.5', '.', '', '+', '5.', '1e3', 'nan', 'inf',
            '0x1', '1_0', '--1', '12.50', '1 2', '1  -2', ' 1 2 ', '1\n2',
            '1 2 3', 'a b', '1,2', '-.5 +0', u'\u0661']
    t = object.__new__(L.SourceModelLogicTree)
    t.filename = t.basepath = 'x'

    class Line(object):
        sourceline = 1
    for text in pool:
        for kind in sorted(MODIF) + ['other']:
            bset = L.BranchSet(kind, {})

            def f():
                text_ = text
                try:
                    value_of(kind, text, True)
                except (Bad, ValueError):
                    return raises(L.ValidationError,
                                  t.validate_uncertainty_value, Line, bset,
                                  text_)
                t.validate_uncertainty_value(Line, bset, text_)
                v = t.parse_uncertainty_value(Line, bset, text_)
                if v != value_of(kind, text, True):
                    return 'value %r' % (v,)
            ctx.check('values', (kind, text), f)


# ---------------------------------------------------------------- gsims

def gsim_levels(r):
    regs = REGIONS[:3] + ['Deep', u'Sub duction']
    r.shuffle(regs)
    levels, n = [], 0
    names = ['bs%d' % i for i in range(20)] + ['zeta', 'alpha', '']
    r.shuffle(names)
    same = r.random() < .2    # identifiers repeated in different sets
    dups = r.random() < .15
    for depth in range(r.randrange(5)):
        attrs = {'branchSetID': names.pop(), 'uncertaintyType': 'gmpeModel'}
        if r.random() < .9:
            attrs['applyToTectonicRegionType'] = regs.pop() \
                if not dups or r.random() < .6 else r.choice(REGIONS[:2])
        if r.random() < .05:
            attrs['uncertaintyType'] = 'sourceModel'
        bs = []
        ids = ['b%02d' % i for i in range(30)]
        r.shuffle(ids)
        for w in weights(r, r.randrange(1, 4)):
            n += 1
            bs.append((ids.pop() if same else 'b%d_%s' % (n, ids.pop()),
                       str(w), r.choice(sorted(L.GSIM))))
        level = [{'attrs': attrs, 'branches': bs}]
        if r.random() < .05:
            other = dict(attrs, branchSetID=names.pop(),
                         applyToTectonicRegionType='other')
            level.append({'attrs': other, 'branches': [
                ('o%d' % n, '1', 'GsimA')]})
        levels.append(level)
    return levels


def C35(ctx):
    ctx.rule = ('random ground motion files (repeated, missing and foreign '
                'regions, several sets in a level) and requested regions')
    r = ctx.rng
    key = 'applyToTectonicRegionType'
    d = tempfile.mkdtemp(prefix='pydv-gsim-')
    try:
        for trial in range(ctx.n(1200, 12000)):
            if not ctx.time_left():
                break
            levels = gsim_levels(r)
            present = [bs['attrs'].get(key) for lev in levels for bs in lev]
            keys = [k for k in set(present) if k and r.random() < .8]
            if r.random() < .2:
                keys.append(r.choice(['Active', 'absent']))
            r.shuffle(keys)
            fname = os.path.join(d, 'gsim.xml')
            with open(fname, 'w') as f:
                f.write(xml(levels, r.choice(['', ' '])))

            def f():
                err = None
                if len(set(keys)) < len(keys):
                    err = ValueError
                named = [k for k in present if k]
                if not err and (
                        [1 for lev in levels if len(lev) > 1] or
                        [1 for lev in levels for bs in lev if
                         bs['attrs']['uncertaintyType'] != 'gmpeModel'] or
                        len(set(named)) < len(named) or
                        keys and not set(keys) & set(named)):
                    err = L.InvalidLogicTree
                if err:
                    return raises(err, L.GsimLogicTree, fname, key, keys)
                lt = L.GsimLogicTree(fname, key, keys)
                sets = sorted((bs['attrs']['branchSetID'],
                               bs['attrs'][key], sorted(bs['branches']))
                              for lev in levels for bs in lev
                              if bs['attrs'].get(key) in keys)
                want = []
                for combo in itertools.product(*[s[2] for s in sets]):
                    w = Decimal(1)
                    for b in combo:
                        w *= Decimal(b[1])
                    want.append((dict((s[1], b[2])
                                      for s, b in zip(sets, combo)), w,
                                 tuple(b[0] for b in combo)))
                got = [(x.value, x.weight, x.lt_path) for x in lt]
                if got != want:
                    return 'realizations %r, expected %r' % (got, want)
                if sum(w for v, w, p in got) != 1:
                    return 'sum of the weights'
                if lt.get_num_paths() != len(want):
                    return 'num_paths %d' % lt.get_num_paths()
                nb = dict((s[0], len(s[2])) for s in sets)
                if lt.get_num_branches() != nb:
                    return 'num_branches %r' % lt.get_num_branches()
                if [(x.value, x.weight, x.lt_path) for x in lt] != want:
                    return 'a second iteration differs'
            ctx.check('all combinations once', (keys, levels), f)
    finally:
        shutil.rmtree(d)
    for trial in range(ctx.n(600, 6000)):
        if not ctx.time_left():
            break
        trts = ['Active', 'Stable', 'Volcanic', u'Subd\xe8', ''][:r.randrange(
            1, 6)]
        root = gsim_tree(r, r.randrange(4), [0], trts)
        path = r.choice([p for w, p in paths(root)])
        ids = [b.branch_id for b in path]

        def g():
            lt = object.__new__(L.GMPELogicTree)
            lt.root_branchset = root
            want, bset = [], root
            for b in path:
                want.append((bset.filters[key], b.value))
                bset = b.child_branchset
            given = r.choice([tuple, list])(ids)
            before = list(given)
            if len(dict(want)) < len(want):
                try:
                    got = lt.make_trt_to_gsim(given)
                except Exception:
                    return
                return 'region types %r, got %r' % (want, got)
            for again in range(2):
                got = lt.make_trt_to_gsim(given)
                if got != dict(want):
                    return '%r instead of %r' % (got, dict(want))
            if list(given) != before:
                return 'the identifiers were changed: %r' % (given,)
        ctx.check('the models of a path', (show(root), ids, regions(root)), g)


def regions(bset):
    return bset.filters[
        'applyToTectonicRegionType'], [
            b.child_branchset and regions(b.child_branchset)
            for b in bset.branches]


def gsim_tree(r, depth, counter, trts):
    bset = L.BranchSet('gmpeModel', {
        'applyToTectonicRegionType': r.choice(trts)})
    # an identifier may occur in several branch sets
    prefix = 'b%d_' % counter[0] if r.random() < .5 else 'b'
    ws = weights(r, r.randrange(1, 4))
    shared = None
    if depth and r.random() < .5:
        shared = gsim_tree(r, depth - 1, counter, trts)
    for i, w in enumerate(ws):
        counter[0] += 1
        b = L.Branch('%s%d' % (prefix, i), w, r.choice(
            ['Model%d' % counter[0], 'Model']))
        if shared is not None:
            b.child_branchset = shared
        elif depth and r.random() < .6:
            b.child_branchset = gsim_tree(r, depth - 1, counter, trts)
        bset.branches.append(b)
    return bset
