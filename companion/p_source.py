"""Sources: collectors, splitting, source models, conversion."""
from openquake.commonlib import source as C
from openquake.hazardlib import geo, mfd, pmf, scalerel, source as S
from openquake.hazardlib.tom import PoissonTOM
from openquake.hazardlib.source.rupture import Rupture
from openquake.nrmllib import models as M
from openquake.nrmllib.hazard import parsers


class Mfd(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def get_min_max_mag(self):
        return self.lo, self.hi


class Src(object):
    """a source with a given number of ruptures"""
    def __init__(self, trt, lo=5, hi=6, n=1, id='s'):
        self.tectonic_region_type = trt
        self.mfd = Mfd(lo, hi)
        self.n = n
        self.source_id = id
        self.counted = 0

    def count_ruptures(self):
        self.counted += 1
        return self.n

    def __repr__(self):
        return 'Src(%r, %r, %r, n=%r, id=%r)' % (
            self.tectonic_region_type, self.mfd.lo, self.mfd.hi, self.n,
            self.source_id)


class EqSrc(Src):
    """equal to any other source, and false"""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None

    def __nonzero__(self):
        return False


MAGS = [0, 0., -1, 4, 4.5, 5, 5.5, 6, 7.]
TRTS = ['A', 'B', '', 'Stable Shallow Crust']


def rsrc(r, trt):
    lo = r.choice(MAGS)
    return (Src if r.random() < .8 else EqSrc)(
        trt, lo, r.choice([m for m in MAGS if m >= lo]),
        r.choice([0, 1, 1, 2, 5, 100]), 's%d' % r.randrange(50))


def ids(xs):
    return [id(x) for x in xs]


def state(c):
    return (c.trt, ids(c.sources), c.min_mag, c.max_mag, c.num_ruptures)


def extremes(srcs, lo=None, hi=None):
    los = [s.mfd.lo for s in srcs] + ([] if lo is None else [lo])
    his = [s.mfd.hi for s in srcs] + ([] if hi is None else [hi])
    return (min(los) if los else None, max(his) if his else None)


def diff(got, exp):
    if got != exp:
        return 'got %r, expected %r' % (got, exp)


def C24(ctx):
    ctx.rule = ('collectors of 0 to 6 sources (also false and all equal '
                'ones), created, updated, filtered, compared; wrong region '
                'types')
    r = ctx.rng
    for trial in range(ctx.n(2000, 20000)):
        if not ctx.time_left():
            break
        trt = r.choice(TRTS)
        srcs = [rsrc(r, trt) for _ in range(r.randrange(7))]
        if srcs and r.random() < .2:
            srcs.append(srcs[0])
        other = rsrc(r, r.choice([t for t in TRTS if t != trt]))
        more = rsrc(r, trt)

        def create():
            given = list(srcs)
            c = C.SourceCollector(trt, given)
            lo, hi = extremes(srcs)
            bad = diff(state(c), (trt, ids(srcs), lo, hi, 0))
            if bad:
                return bad
            c.update(more)
            lo, hi = extremes(srcs + [more])
            return diff(ids(given), ids(srcs)) or diff(
                state(c), (trt, ids(srcs + [more]), lo, hi, 0))

        def update():
            c = C.SourceCollector(trt)
            for i, s in enumerate(srcs):
                c.update(s)
                lo, hi = extremes(srcs[:i + 1])
                bad = diff(state(c), (trt, ids(srcs[:i + 1]), lo, hi, 0))
                if bad:
                    return bad

        def refused():
            c = C.SourceCollector(trt, list(srcs))
            before = state(c)
            try:
                c.update(other)
            except Exception:
                return diff(state(c), before)
            return 'a source of region type %r was accepted by %r' % (
                other.tectonic_region_type, trt)

        def refused2():
            k = r.randrange(len(srcs) + 1)
            try:
                C.SourceCollector(trt, srcs[:k] + [other] + srcs[k:])
            except Exception:
                return
            return 'a source of another region type was accepted'
        mask = [r.choice([None, None, [1], [], 'sites', 0])
                for _ in srcs]

        def filtered():
            c = C.SourceCollector(trt, list(srcs))
            for s in srcs[:2]:
                c.update_num_ruptures(s)
            before = state(c)
            todo = list(mask)
            d = c.filter_sources(lambda s: todo.pop(0))
            kept = [s for s, m in zip(srcs, mask) if m is not None]
            lo, hi = extremes(kept)
            if d is c:
                return 'not a new collector'
            bad = diff(state(d), (trt, ids(kept), lo, hi, 0)) or diff(
                state(c), before)
            if bad:
                return bad
            d.update(more)
            return diff(state(c), before)

        def ruptures():
            n = r.choice([0, 3])
            c = C.SourceCollector(trt, num_ruptures=n)
            for s in srcs:
                if c.update_num_ruptures(s) != s.n:
                    return 'wrong number of ruptures of %r' % s
            return diff(state(c), (trt, [], None, None,
                                   n + sum(s.n for s in srcs)))

        def order():
            cs = []
            for i in range(4):
                t = r.choice(TRTS)
                c = C.SourceCollector(t)
                for _ in range(r.randrange(3)):
                    c.update(rsrc(r, t))
                cs.append(c)
            key = lambda c: (len(c.sources), c.trt)
            for a in cs:
                for b in cs:
                    if bool(a < b) != (key(a) < key(b)):
                        return '%r < %r is %r' % (key(a), key(b), a < b)
            return diff([key(c) for c in sorted(cs)],
                        sorted(map(key, cs)))
        inp = (trt, srcs)
        ctx.check('created with sources', inp, create)
        ctx.check('updated', inp, update)
        ctx.check('another region type is refused', inp + (other,), refused)
        ctx.check('another region type is refused', inp + (other,), refused2)
        ctx.check('filtered', inp + (mask,), filtered)
        ctx.check('ruptures', inp, ruptures)
        ctx.check('order', trial, order)


# ---------------------------------------------------------------- splitting
class Mesh(object):
    def __init__(self, pts):
        self.lons, self.lats = [p[0] for p in pts], [p[1] for p in pts]

    def __len__(self):
        return len(self.lons)


class Poly(object):
    def __init__(self, pts):
        self.pts, self.asked = pts, []

    def discretize(self, step):
        self.asked.append(step)
        return Mesh(self.pts)


AREA = ('tectonic_region_type', 'rupture_mesh_spacing',
        'magnitude_scaling_relationship', 'rupture_aspect_ratio',
        'upper_seismogenic_depth', 'lower_seismogenic_depth',
        'nodal_plane_distribution', 'hypocenter_distribution',
        'temporal_occurrence_model')


def rates(r):
    return [r.choice([0, 0., 1, .25, 1e-9, 3.5, 1, 100])
            for _ in range(r.randrange(1, 6))]


def rmfd(r, gr=None):
    if gr or gr is None and r.random() < .5:
        return mfd.TruncatedGRMFD(
            min_mag=r.choice([0, 4.5]), max_mag=r.choice([6, 7.5]),
            bin_width=r.choice([.5, 1]), a_val=r.choice([-3.2, 0, 1.5, 4]),
            b_val=r.choice([0, .8, 1]))
    return mfd.EvenlyDiscretizedMFD(
        min_mag=r.choice([0, 4.5, 5]), bin_width=r.choice([.1, 1]),
        occurrence_rates=rates(r))


def area(r, pts=None):
    a = S.AreaSource(
        source_id=r.choice(['s', '', 's-0', u'\u00e9', '%s', '1']),
        name=r.choice(['n', '', 'n-1', '%d']), mfd=rmfd(r),
        polygon=Poly(pts if pts is not None else [
            (r.choice([0, 1.5, -180]), r.choice([0, 45.]))
            for _ in range(r.choice([1, 2, 3, 12]))]),
        area_discretization=r.choice([1, 10.]),
        **dict((n, object()) for n in AREA))
    return a


def fault(r):
    kw = dict(source_id=r.choice(['f', '', 'f-0']), name='fault', mfd=rmfd(
        r), tectonic_region_type=object(), rupture_mesh_spacing=object(),
        magnitude_scaling_relationship=object(), rupture_aspect_ratio=2.,
        rake=object(), temporal_occurrence_model=None)
    if r.random() < .5:
        return S.ComplexFaultSource(edges=[object()], **kw)
    return S.SimpleFaultSource(
        upper_seismogenic_depth=0, lower_seismogenic_depth=10.,
        fault_trace=object(), dip=0, **kw)


def attrs(o):
    d = {}
    for k, v in vars(o).items():
        d[k] = (id(v), list(v) if isinstance(v, list) else None)
        if isinstance(v, mfd.BaseMFD):
            for k2, v2 in vars(v).items():
                d[k + '.' + k2] = list(v2) if isinstance(v2, list) else v2
    return d


def near(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def total(rs, m, n):
    for i, (mag, rate) in enumerate(m.get_annual_occurrence_rates()):
        if rs[i][0] != mag or not near(rs[i][1] * n, rate):
            return ('the %d points have rate %r of magnitude %r, the area '
                    '%r of %r' % (n, rs[i][1], rs[i][0], rate, mag))


def isol(kind, x):
    return x.__class__ is kind


def C25(ctx):
    ctx.rule = ('areas of 1 to 12 points with both kinds of distributions, '
                'faults with zero and repeated rates; identifiers with '
                'special characters')
    r = ctx.rng
    for trial in range(ctx.n(2000, 20000)):
        if not ctx.time_left():
            break
        a, f = area(r), fault(r)
        step = r.choice([1, 10., .5])

        def split_area():
            before = attrs(a)
            ps = list(C.split_source(a, step))
            bad = diff(attrs(a), before)
            if bad:
                return 'the area was modified: ' + bad
            if a.polygon.asked != [step]:
                return 'discretized with %r' % a.polygon.asked
            if len(ps) != len(a.polygon.pts):
                return '%d pieces for %d points' % (
                    len(ps), len(a.polygon.pts))
            if len(set(ids(ps))) != len(ps):
                return 'the same piece twice'
            if len(set(p.source_id for p in ps)) != len(ps):
                return 'repeated identifiers'
            for i, (p, (x, y)) in enumerate(zip(ps, a.polygon.pts)):
                if not isol(S.PointSource, p):
                    return 'not a point source: %r' % p
                for n in AREA:
                    if getattr(p, n) is not getattr(a, n):
                        return 'wrong %s of the piece %d' % (n, i)
                if p.location != geo.Point(x, y):
                    return 'the piece %d is at %r, not at %r' % (
                        i, p.location, (x, y))
                if p.source_id != '%s-%s' % (a.source_id, i) or \
                        p.name != '%s-%s' % (a.name, i):
                    return 'the piece %d is called %r, %r' % (
                        i, p.source_id, p.name)
                m = p.mfd
                if m.__class__ is not a.mfd.__class__:
                    return 'distribution %r' % m
                bad = total(m.get_annual_occurrence_rates(), a.mfd, len(ps))
                if bad:
                    return bad
                for n in set(vars(a.mfd)) - set(['a_val',
                                                 'occurrence_rates']):
                    if getattr(m, n) != getattr(a.mfd, n):
                        return 'wrong %s' % n

        def split_fault():
            before = attrs(f)
            gen = C.split_source(f, step)
            ps, seen = [], []
            for p in gen:
                if p is f or any(p is q for q in ps):
                    return 'the same object twice'
                ps.append(p)
                seen.append(attrs(p))
            if seen != [attrs(p) for p in ps]:
                return 'a piece changed after it was delivered'
            bad = diff(attrs(f), before)
            if bad:
                return 'the fault was modified: ' + bad
            want = [(m, x) for m, x in f.mfd.get_annual_occurrence_rates()
                    if x]
            got = [pair for p in ps
                   for pair in p.mfd.get_annual_occurrence_rates()]
            if got != want:
                return 'magnitudes and rates %r, expected %r' % (got, want)
            if len(ps) != len(want):
                return '%d pieces for %d magnitudes' % (len(ps), len(want))
            if len(set(p.source_id for p in ps)) != len(ps):
                return 'repeated identifiers'
            for i, p in enumerate(ps):
                if not isol(f.__class__, p) or \
                        p.mfd.bin_width != f.mfd.bin_width:
                    return 'wrong kind or bin width of the piece %d' % i
                if p.source_id != '%s-%s' % (f.source_id, i):
                    return 'the piece %d is called %r' % (i, p.source_id)
                for n in vars(f):
                    if n not in ('source_id', 'mfd') and \
                            getattr(p, n) is not getattr(f, n):
                        return 'wrong %s of the piece %d' % (n, i)

        def others():
            kw = dict((n, object()) for n in S.CharacteristicFaultSource.
                      params)
            c = S.CharacteristicFaultSource(**kw)
            p = S.PointSource(**dict((n, object())
                                     for n in S.PointSource.params))
            for s in (c, p):
                before = dict(vars(s))
                if ids(C.split_source(s, step)) != [id(s)]:
                    return 'a source of class %s was split' % s.__class__
                if vars(s) != before:
                    return 'the source was modified'
        ctx.check('areas', (vars(a), a.polygon.pts, step), split_area)
        ctx.check('faults', vars(f), split_fault)
        ctx.check('other sources', trial, others)
    big = area(r, [(i * .1, 0) for i in range(1500)])

    def many():
        ps = list(C.split_source(big, 1))
        if len(set(p.source_id for p in ps)) != 1500:
            return 'repeated identifiers'
    ctx.check('many points', 1500, many)


# ------------------------------------------------------------------ blocks
def rsource(r, trt):
    k = r.randrange(4)
    if k == 0:
        s = area(r)
        m = len(s.polygon.pts)
    elif k == 1:
        s = fault(r)
        m = len([x for _, x in s.mfd.get_annual_occurrence_rates() if x])
    else:
        s = S.CharacteristicFaultSource(
            source_id='c', name='c', mfd=rmfd(r), surface=None, rake=0,
            tectonic_region_type=trt, temporal_occurrence_model=None)
        m = 1
    s.tectonic_region_type = trt
    s.wanted = m
    return s


def C26(ctx):
    ctx.rule = ('collectors of 0 to 8 sources of all kinds, some accepted; '
                'integer and real limits from tiny to huge; ruptures 0 too')
    r = ctx.rng
    for trial in range(ctx.n(1500, 15000)):
        if not ctx.time_left():
            break
        srcs = [rsource(r, 'T') for _ in range(r.randrange(9))]
        mode = r.random()
        acc = [mode > .1 and (mode > .8 or r.random() < .6) for _ in srcs]
        limit = r.choice([1, 10, 50, 100, 1000, 10000, 1e-3, 33.3, 1e9])
        start = r.choice([0, 7])

        def f():
            c = C.SourceCollector('T', num_ruptures=start)
            for s in srcs:
                c.update(s)
            lo, hi = c.min_mag, c.max_mag
            table = dict(zip(ids(srcs), acc))
            asked = []

            def flt(s):
                asked.append(id(s))
                return [] if table[id(s)] else None
            if not srcs:
                try:
                    list(c.gen_blocks(flt, limit, 5.))
                except Exception:
                    return
                return 'a collector without sources was not refused'
            blocks = list(c.gen_blocks(flt, limit, 5.))
            if asked != ids(srcs):
                return 'the filter was not asked once for every source'
            got = [p for b in blocks for p in b]
            expected = [q for s, ok in zip(srcs, acc) if ok
                        for q in C.split_source(s, 5.)]
            if expected != list(c.sources):
                return ('the collector holds the pieces %r, expected %r'
                        % (c.sources, expected))
            held = [p for p in c.sources if p.count_ruptures()]
            if ids(got) != ids(held):
                return 'the blocks have %r, the collector %r' % (got, held)
            lim = limit * len(srcs) / (len(srcs) + 100.)
            for b in blocks:
                w = sum(p.count_ruptures() for p in b)
                if not len(b):
                    return 'an empty block'
                if w > lim * (1 + 1e-12) and len(b) > 1:
                    return 'a block of %d pieces and %d ruptures, above ' \
                        '%r' % (len(b), w, lim)
            n = start + sum(p.count_ruptures() for p in expected)
            if c.num_ruptures != n:
                return '%d ruptures, expected %d' % (c.num_ruptures, n)
            t = len(expected) + acc.count(False)
            if tuple(c.filtered_sources) != (len(expected), t):
                return 'reported %r, expected %r' % (
                    c.filtered_sources, (len(expected), t))
            if (c.min_mag, c.max_mag, c.trt) != (lo, hi, 'T'):
                return 'the magnitudes changed'
        ctx.check('every piece once', ([
            (s.__class__.__name__, s.wanted) for s in srcs], acc, limit), f)


# ----------------------------------------------------------- source models
class Raw(object):
    def __init__(self, id, trt, lo, hi):
        self.id, self.trt, self.lo, self.hi = id, trt, lo, hi

    def __repr__(self):
        return 'Raw(%r, %r)' % (self.id, self.trt)


def C27(ctx):
    ctx.rule = ('models of 0 to 9 sources with up to 4 region types, '
                'repeated identifiers in any place')
    r = ctx.rng
    for trial in range(ctx.n(2500, 25000)):
        if not ctx.time_left():
            break
        n = r.randrange(10)
        idl = ['%d' % i for i in range(n)]
        if n and r.random() < .3:
            idl[0] = ''
        r.shuffle(idl)
        repeated = n > 1 and r.random() < .3
        if repeated:
            i, j = r.sample(range(n), 2)
            idl[i] = idl[j]
        raws = [Raw(i, r.choice(TRTS), r.choice(MAGS[:5]),
                    r.choice(MAGS[5:])) for i in idl]
        used = r.random() < .8
        parsers.SourceModelParser.models = {'dir/model.xml': raws,
                                            'model.xml': []}

        def f():
            made, log = [], []

            def convert(raw):
                s = Src(raw.trt, raw.lo, raw.hi, 1, raw.id)
                s.raw = raw
                made.append(s)
                return s

            def uncertain(s):
                log.append(s)
                s.mfd.hi += 1
            args = ['dir/model.xml', convert] + [uncertain] * used
            try:
                cs = C.parse_source_model(*args)
            except C.DuplicateID:
                return None if repeated else 'refused'
            if repeated:
                return 'a repeated identifier was accepted'
            if [s.raw for s in made] != raws:
                return 'converted %r' % [s.raw for s in made]
            if ids(log) != (ids(made) if used else []):
                return 'uncertainties were applied to %r' % log
            want = sorted((len([x for x in raws if x.trt == t]), t)
                          for t in set(x.trt for x in raws))
            if [(len(c.sources), c.trt) for c in cs] != want:
                return 'collectors %r, expected %r' % (
                    [(len(c.sources), c.trt) for c in cs], want)
            for c in cs:
                if not isinstance(c, C.SourceCollector):
                    return 'not a collector: %r' % c
                mine = [s for s in made if s.raw.trt == c.trt]
                if ids(c.sources) != ids(mine):
                    return 'the sources of %r are %r, expected %r' % (
                        c.trt, c.sources, mine)
                if (c.min_mag, c.max_mag) != extremes(mine):
                    return 'the magnitudes of %r are %r, expected %r' % (
                        c.trt, (c.min_mag, c.max_mag), extremes(mine))
        ctx.check('a collector per region type', (raws, used), f)


# --------------------------------------------------------------- conversion
NUM = [0, 0., 1, 2.5, -3, 90., 45]
TXT = ['a', '', 'id-1', '%s', u'\u00e9', "o'k", 'x y']


def pts(r, lo, hi, dims):
    return [tuple(r.choice(NUM) for _ in range(dims))
            for _ in range(r.randrange(lo, hi))]


def text(kind, coords):
    return '%s(%s)' % (kind, ', '.join(
        ' '.join(repr(float(x)) for x in c) for c in coords))


def line(r, dims):
    c = pts(r, 1, 5, dims)
    return text('LINESTRING', c), geo.Line([geo.Point(*map(float, x))
                                            for x in c])


def probs(r):
    n = r.randrange(1, 4)
    cuts = sorted(r.random() for _ in range(n - 1))
    if n > 1 and r.random() < .3:
        cuts[0] = 0.
    return [b - a for a, b in zip([0.] + cuts, cuts + [1.])]


class World(object):
    """random models with the expected conversion"""
    def __init__(self, r):
        self.r = r
        self.time = r.choice([None, 0, 50, 1.5])
        self.rms, self.width = r.choice([1, 2.5]), r.choice([.1, 1])
        self.disc = r.choice([1, 10.])
        self.tom = PoissonTOM(self.time) if self.time else None
        self.dims = r.choice([2, 3])

    def num(self):
        return self.r.choice(NUM)

    def mfd(self):
        n = self.num
        if self.r.random() < .5:
            d = dict(a_val=n(), b_val=n(), min_mag=n(), max_mag=n())
            return M.TGRMFD(**d), mfd.TruncatedGRMFD(
                bin_width=self.width, **d)
        d = dict(min_mag=n(), bin_width=n())
        x = rates(self.r)
        return M.IncrementalMFD(occur_rates=x, **d), \
            mfd.EvenlyDiscretizedMFD(occurrence_rates=list(x), **d)

    def simple(self):
        w, l = line(self.r, self.dims)
        u, lo, dip = self.num(), self.num(), self.num()
        return M.SimpleFaultGeometry(
            wkt=w, upper_seismo_depth=u, lower_seismo_depth=lo, dip=dip), \
            dict(fault_trace=l, upper_seismogenic_depth=u,
                 lower_seismogenic_depth=lo, dip=dip)

    def complex(self):
        ls = [line(self.r, self.dims)
              for _ in range(self.r.randrange(2, 6))]
        return M.ComplexFaultGeometry(
            top_edge_wkt=ls[0][0], bottom_edge_wkt=ls[-1][0],
            int_edges=[x for x, _ in ls[1:-1]]), [y for _, y in ls]

    def source(self, kind):
        r, n = self.r, self.num
        m, want = self.mfd()
        a = dict(id=r.choice(TXT), name=r.choice(TXT), trt=r.choice(TRTS),
                 mfd=m)
        e = dict(source_id=a['id'], name=a['name'], mfd=want,
                 tectonic_region_type=a['trt'],
                 temporal_occurrence_model=self.tom)
        if kind != 'CharacteristicSource':
            a.update(mag_scale_rel=r.choice(['WC1994', 'PeerMSR']),
                     rupt_aspect_ratio=n())
            e.update(rupture_mesh_spacing=self.rms,
                     magnitude_scaling_relationship=getattr(
                         scalerel, a['mag_scale_rel'])(),
                     rupture_aspect_ratio=a['rupt_aspect_ratio'])
        if kind in ('PointSource', 'AreaSource'):
            u, lo = n(), n()
            nps = [(p, n(), n(), n()) for p in probs(r)]
            hds = [(p, n()) for p in probs(r)]
            a.update(nodal_plane_dist=[M.NodalPlane(
                probability=p, strike=s, dip=d, rake=k)
                for p, s, d, k in nps],
                hypo_depth_dist=[M.HypocentralDepth(probability=p, depth=d)
                                 for p, d in hds])
            e.update(nodal_plane_distribution=pmf.PMF([
                (p, geo.NodalPlane(s, d, k)) for p, s, d, k in nps]),
                hypocenter_distribution=pmf.PMF(hds),
                upper_seismogenic_depth=u, lower_seismogenic_depth=lo)
            if kind == 'PointSource':
                x, y = float(n()), float(n())
                w = text('POINT', [(x, y)])
                e['location'] = geo.Point(x, y)
            else:
                ring = pts(r, 3, 7, self.dims)
                if ring[-1] == ring[0]:
                    ring[-1] = tuple(v + 1 for v in ring[-1])
                w = text('POLYGON((', ring + ring[:1]) + '))'
                w = w.replace('((((', '((').replace('(((', '((').replace(
                    ')))', '))')
                e.update(polygon=geo.Polygon([
                    geo.Point(*map(float, c)) for c in ring]),
                    area_discretization=self.disc)
            a['geometry'] = M.SimpleFaultGeometry(
                wkt=w, upper_seismo_depth=u, lower_seismo_depth=lo)
        elif kind == 'SimpleFaultSource':
            a['geometry'], d = self.simple()
            e.update(d)
            a['rake'] = e['rake'] = n()
        elif kind == 'ComplexFaultSource':
            a['geometry'], e['edges'] = self.complex()
            a['rake'] = e['rake'] = n()
        else:
            a['rake'] = e['rake'] = n()
            k = r.randrange(3)
            if k == 0:
                a['surface'], d = self.simple()
                e['surface'] = geo.SimpleFaultSurface(
                    mesh_spacing=self.rms, **d)
            elif k == 1:
                a['surface'], d = self.complex()
                e['surface'] = geo.ComplexFaultSurface(d, self.rms)
            else:
                ps = [dict((x, n()) for x in (
                    'strike', 'dip', 'top_left', 'top_right',
                    'bottom_right', 'bottom_left'))
                    for _ in range(r.randrange(1, 4))]
                a['surface'] = [M.PlanarSurface(**p) for p in ps]
                e['surface'] = geo.MultiSurface([
                    geo.PlanarSurface(mesh_spacing=self.rms, **p)
                    for p in ps])
        cls = getattr(S, kind if kind != 'CharacteristicSource'
                      else 'CharacteristicFaultSource')
        return getattr(M, kind)(**a), cls(**e)

    def rupture(self, kind):
        n = self.num
        h = [n() for _ in range(self.r.choice([2, 3]))]
        if kind == 'SimpleFaultRuptureModel':
            g, d = self.simple()
            s = geo.SimpleFaultSurface(mesh_spacing=self.rms, **d)
            t = S.SimpleFaultSource
        else:
            g, d = self.complex()
            s = geo.ComplexFaultSurface(d, self.rms)
            t = S.ComplexFaultSource
        mag, rake = n(), n()
        return getattr(M, kind)(
            magnitude=mag, rake=rake, hypocenter=h, geometry=g), Rupture(
            mag=mag, rake=rake, tectonic_region_type=None,
            hypocenter=geo.Point(*h), surface=s, source_typology=t)

    def converter(self):
        return C.NrmlHazardlibConverter(
            self.time, self.rms, self.width, self.disc)


def deep(o):
    if isinstance(o, (list, tuple)):
        return [deep(x) for x in o]
    if isinstance(o, M._Model):
        return (o.__class__.__name__, sorted(
            (k, deep(v)) for k, v in vars(o).items()))
    return o


KINDS = ('PointSource', 'AreaSource', 'SimpleFaultSource',
         'ComplexFaultSource', 'CharacteristicSource',
         'SimpleFaultRuptureModel', 'ComplexFaultRuptureModel')


class OwnError(Exception):
    pass


def C28(ctx):
    ctx.rule = ('random sources and ruptures of every kind, 2 and 3 '
                'dimensional points, zero parameters; errors of every step')
    r = ctx.rng
    for trial in range(ctx.n(700, 7000)):
        if not ctx.time_left():
            break
        w = World(r)
        conv = w.converter()
        several = [(k, w.rupture(k) if k.endswith('Model') else w.source(k))
                   for k in [r.choice(KINDS) for _ in range(3)]]
        for kind, (src, want) in several:
            def f():
                for again in range(2):
                    before = deep(src)
                    got = conv(src)
                    if deep(src) != before:
                        return 'the input became %r' % (deep(src),)
                    if got != want or got.__class__ is not want.__class__:
                        return 'got %r, expected %r' % (got, want)
            ctx.check('converted', (kind, deep(src), w.time, w.rms,
                                    w.width, w.disc), f)
        kind = r.choice(KINDS[:5])
        src, _ = w.source(kind)
        if 'surface' in vars(src) and not hasattr(src.surface, 'wkt'):
            continue
        exc = r.choice([ValueError, KeyError, TypeError, OwnError,
                        RuntimeError, IndexError, AttributeError])
        msg = r.choice(['broken', '', u'\u00e9', '100%'])
        where = r.choice(['wkt', 'mfd'])

        def g():
            def broken(*args, **kw):
                raise exc(msg)
            if where == 'wkt':
                mod, names = C.wkt, ['loads']
            else:
                mod, names = C.mfd, ['TruncatedGRMFD',
                                     'EvenlyDiscretizedMFD']
            old = [getattr(mod, n) for n in names]
            for n in names:
                setattr(mod, n, broken)
            try:
                conv(src)
            except Exception as e:
                if e.__class__ is not exc:
                    return 'a %s became a %s' % (
                        exc.__name__, e.__class__.__name__)
                t = e.args[0] if e.args else ''
                if src.id not in t or src.name not in t:
                    return 'the message is %r' % (e.args,)
                if msg not in t:
                    return 'the original message is lost: %r' % (e.args,)
                return
            finally:
                for n, o in zip(names, old):
                    setattr(mod, n, o)
            return 'no error'
        ctx.check('errors name the source', (
            kind, src.id, src.name, exc.__name__, msg, where), g)
        src.mag_scale_rel = r.choice(['unknown', ''])
        if kind != 'CharacteristicSource':
            def h():
                try:
                    conv(src)
                except KeyError as e:
                    t = e.args[0]
                    if src.id not in t or src.name not in t:
                        return 'the message is %r' % (e.args,)
                    return
                return 'an unknown scaling relation was accepted'
            ctx.check('unknown scaling relations', (kind, src.id), h)
