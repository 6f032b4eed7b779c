"""source.py: source collectors, splitting of sources, reading of source
models, conversion from NRML to hazardlib."""
from .base import *     # noqa
from .c_general import Splitting
from pydv.engine import HZip, HSet
from pydv.types import T as T_base

MagPair = TTup(TReal, TReal)
CMfd = TObj('CMfd', attrs={'min': TReal, 'max': TReal}, meths={
    'get_min_max_mag': lambda E, o, a, k: (E.getattr(o, 'min'),
                                           E.getattr(o, 'max'))})
ruptf = None


def count(E, o, a, k):
    return Sym(TInt, rupt(o.e))


CSrc = TObj('CSrc', attrs={'tectonic_region_type': TStr, 'mfd': CMfd,
                           'source_id': TStr},
            meths={'count_ruptures': count})
rupt = z3.Function('ruptures', CSrc.sort(), z3.IntSort())
CSrcs = TSeq(CSrc)
OReal = TOpt(TReal)
trtf = CSrc.attrfn('tectonic_region_type')
lof = lambda x: CMfd.attrfn('min')(CSrc.attrfn('mfd')(x))
hif = lambda x: CMfd.attrfn('max')(CSrc.attrfn('mfd')(x))


def lower(m, v):
    return z3.If(z3.Or(OReal.is_none(m), v < OReal.val(m)), OReal.some(v), m)


def higher(m, v):
    return z3.If(z3.Or(OReal.is_none(m), v > OReal.val(m)), OReal.some(v), m)


class Mags(object):
    """smallest minimum and largest maximum of a sequence of sources"""
    def __init__(self, E, lo0=None, hi0=None, trt=None):
        self.lo = E.add_fold(Fold(
            'smallest', CSrc, OReal, OReal.none if lo0 is None else lo0,
            lambda a, x, p: lower(a, lof(x))))
        self.hi = E.add_fold(Fold(
            'largest', CSrc, OReal, OReal.none if hi0 is None else hi0,
            lambda a, x, p: higher(a, hif(x))))
        if trt is not None:
            self.same = E.add_fold(Fold(
                'of the region type', CSrc, TBool, T,
                lambda a, x, p: z3.And(a, trtf(x) == trt)))


def coll(E, trt, S=None, lo=None, hi=None, n=None):
    """a collector in a given state"""
    c = E.call(E.lookup_path('source.SourceCollector'), [trt])
    if S is not None:
        E.setattr(c, 'sources', E.new_list(S))
        E.setattr(c, 'min_mag', lo)
        E.setattr(c, 'max_mag', hi)
        E.setattr(c, 'num_ruptures', n)
    return c


def parts(E, c):
    return (E.z(E.getattr(c, 'sources'), CSrcs),
            E.z(E.getattr(c, 'min_mag'), OReal),
            E.z(E.getattr(c, 'max_mag'), OReal),
            E.z(E.getattr(c, 'num_ruptures'), TInt),
            E.z(E.getattr(c, 'trt'), TStr))


def t_update(E):
    S, x = E.const('S', CSrcs), E.const('x', CSrc)
    trt, n = E.const('trt', TStr), E.const('n', TInt)
    lo, hi = E.const('lo', OReal), E.const('hi', OReal)

    def run():
        c = coll(E, trt, S, lo, hi, n)
        _, exc = attempt(E, lambda: E.call(E.getattr(c, 'update'), [x]))
        s, l, h, k, t = parts(E, c)
        E.prove('the region type and the ruptures are kept',
                z3.And(k == n.e, t == trt.e))
        if exc is not None:
            E.prove('refused only for another region type',
                    trtf(x.e) != trt.e)
            E.prove('a refused source changes nothing', z3.And(
                s == S.e, l == lo.e, h == hi.e))
            reach(E, 'refused')
            return
        E.prove('a source of another region type is refused',
                trtf(x.e) == trt.e)
        E.prove('the source is added at the end',
                s == CSrcs.rawsnoc(S.e, x.e))
        E.prove('the smallest minimum', l == lower(lo.e, lof(x.e)))
        E.prove('the largest maximum', h == higher(hi.e, hif(x.e)))
        reach(E, 'accepted')
    return run


def t_ctor(E):
    """a collector created with sources is one updated with them"""
    trt = E.const('trt', TStr)
    lo, hi = E.const('lo', OReal), E.const('hi', OReal)
    n = E.const('n', TInt)
    m0 = Mags(E, trt=trt.e)
    m1 = Mags(E, lo.e, hi.e)
    S = E.const('S', CSrcs)

    def run():
        cls = E.lookup_path('source.SourceCollector')
        case = E.choose(4)
        given = E.new_list(S)
        args = [[trt], [trt, given], [trt, given, n, lo, hi],
                [trt, None]][case]
        c, exc = attempt(E, lambda: E.call(cls, args))
        full = case in (1, 2)
        E.prove('the given list is unchanged', E.z(given, CSrcs) == S.e)
        if exc is not None:
            E.prove('refused only for another region type', z3.Not(
                m0.same(S.e)) if full else F)
            reach(E, 'refused')
            return
        if full:
            E.prove('sources of another region type are refused',
                    m0.same(S.e))
        s, l, h, k, t = parts(E, c)
        m = m1 if case == 2 else m0
        ref = S.e if full else CSrcs.nil
        E.prove('exactly the given sources, in order', s == ref)
        E.prove('the smallest minimum', l == m.lo(ref))
        E.prove('the largest maximum', h == m.hi(ref))
        E.prove('the region type', t == trt.e)
        E.prove('the ruptures given', k == (n.e if case == 2 else 0))
        if full:
            E.call(E.getattr(given, 'append'), [E.fresh('new', CSrc)])
            E.prove('the list given and the one of the collector are not '
                    'shared', parts(E, c)[0] == s)
        reach(E, 'created')
    return run


def t_filter(E):
    trt, n = E.const('trt', TStr), E.const('n', TInt)
    lo, hi = E.const('lo', OReal), E.const('hi', OReal)
    Sites = TObj('Sites', hooks={'truth': lambda E, o: z3.Function(
        'not empty', o.t.sort(), z3.BoolSort())(o.e)})
    sitesf = z3.Function('sites of', CSrc.sort(), TOpt(Sites).sort())
    acc = lambda x: z3.Not(TOpt(Sites).is_none(sitesf(x)))
    m = Mags(E, trt=trt.e)
    kept = E.add_fold(Fold(
        'accepted', CSrc, CSrcs, CSrcs.nil, lambda a, x, p: z3.If(
            acc(x), CSrcs.rawsnoc(a, x), a)))
    lem = E.induct('a filter keeps the region type', CSrcs, lambda s:
                   z3.Implies(m.same(s), m.same(kept(s))))
    S = E.const('S', CSrcs)

    def tmpl(E, seq, L0, node):
        # the magnitudes of what is accepted so far
        return [] if seq is None or seq.t != CSrcs else [
            ('%s: %s of the accepted' % (n, w), lambda p, L, n=n, f=f:
             L[n][1] == f(kept(p))) for n, (lt, e) in L0.items()
            if lt == OReal for w, f in (('smallest', m.lo),
                                        ('largest', m.hi))]
    E.templates.append(tmpl)

    def run():
        c = coll(E, trt, S, lo, hi, n)
        sub = E.make_class('Sub', [E.lookup_path('source.SourceCollector')],
                           {}, 'openquake.commonlib.source')
        E.assume(m.same(S.e))
        E.assume(lem(S.e))
        f = UFun('src_filter', lambda E, a, k: Sym(
            TOpt(Sites), sitesf(E.z(a[0], CSrc))))
        d = E.call(E.getattr(c, 'filter_sources'), [f])
        E.prove('a new collector', d != c and isinstance(
            E.h(d), HInst) and E.h(d).cls is E.h(c).cls)
        s, l, h, k, t = parts(E, d)
        E.prove('exactly the accepted sources, in order', s == kept(S.e))
        E.prove('the smallest minimum', l == m.lo(kept(S.e)))
        E.prove('the largest maximum', h == m.hi(kept(S.e)))
        E.prove('the region type', t == trt.e)
        E.prove('no ruptures counted yet', k == 0)
        s, l, h, k, t = parts(E, c)
        E.prove('the original is unchanged', z3.And(
            s == S.e, l == lo.e, h == hi.e, k == n.e, t == trt.e))
        reach(E, 'end')
    return run


def t_ruptures(E):
    S, x = E.const('S', CSrcs), E.const('x', CSrc)
    trt, n = E.const('trt', TStr), E.const('n', TInt)
    lo, hi = E.const('lo', OReal), E.const('hi', OReal)

    def run():
        c = coll(E, trt, S, lo, hi, n)
        v = E.call(E.getattr(c, 'update_num_ruptures'), [x])
        E.prove('the ruptures of the source', E.z(v, TInt) == rupt(x.e))
        s, l, h, k, t = parts(E, c)
        E.prove('added to the total', k == n.e + rupt(x.e))
        E.prove('nothing else changes', z3.And(
            s == S.e, l == lo.e, h == hi.e, t == trt.e))
        reach(E, 'end')
    return run


def t_lt(E):
    A, B = E.const('A', CSrcs), E.const('B', CSrcs)
    t, u = E.const('t', TStr), E.const('u', TStr)

    def run():
        a = coll(E, t, A, None, None, 0)
        b = coll(E, u, B, None, None, 0)
        n, m = E.len(CSrcs, A.e), E.len(CSrcs, B.e)
        r = E.lt(a, b)
        E.prove('fewer sources first, then by region type',
                r == z3.Or(n < m, z3.And(n == m, t.e < u.e)))
        reach(E, 'end')
    return run


# -------------------------------------------------------------- splitting
SRC = 'openquake.hazardlib.source.'
GEO = 'openquake.hazardlib.geo.'
MFD = 'openquake.hazardlib.mfd.'
Any = TObj('Any')
Reals = TSeq(TReal)
SIGS = {
    MFD + 'TruncatedGRMFD': 'min_mag max_mag bin_width a_val b_val',
    MFD + 'EvenlyDiscretizedMFD': 'min_mag bin_width occurrence_rates',
    GEO + 'Point': 'longitude latitude depth=0.0',
    GEO + 'Line': 'points',
    GEO + 'Polygon': 'points',
    GEO + 'NodalPlane': 'strike dip rake',
    GEO + 'PlanarSurface': 'mesh_spacing strike dip top_left top_right '
                           'bottom_right bottom_left',
    GEO + 'MultiSurface': 'surfaces',
    GEO + 'SimpleFaultSurface.from_fault_data':
        'fault_trace upper_seismogenic_depth lower_seismogenic_depth dip '
        'mesh_spacing',
    GEO + 'ComplexFaultSurface.from_fault_data': 'edges mesh_spacing',
    'openquake.hazardlib.pmf.PMF': 'data',
    'openquake.hazardlib.tom.PoissonTOM': 'time_span',
    'openquake.hazardlib.source.rupture.Rupture':
        'mag rake tectonic_region_type hypocenter surface source_typology',
}
_base = 'source_id name tectonic_region_type mfd '
_par = _base + ('rupture_mesh_spacing magnitude_scaling_relationship '
                'rupture_aspect_ratio ')
for _n, _p in [
        ('PointSource', _par + 'upper_seismogenic_depth '
         'lower_seismogenic_depth location nodal_plane_distribution '
         'hypocenter_distribution temporal_occurrence_model'),
        ('AreaSource', _par + 'upper_seismogenic_depth '
         'lower_seismogenic_depth nodal_plane_distribution '
         'hypocenter_distribution polygon area_discretization '
         'temporal_occurrence_model'),
        ('SimpleFaultSource', _par + 'upper_seismogenic_depth '
         'lower_seismogenic_depth fault_trace dip rake '
         'temporal_occurrence_model'),
        ('ComplexFaultSource', _par + 'edges rake '
         'temporal_occurrence_model'),
        ('CharacteristicFaultSource', _base + 'surface rake '
         'temporal_occurrence_model')]:
    SIGS[SRC + _n] = _p


def ext_class(E, dotted):
    """a class of hazardlib: an object keeping its parameters; the
    signature is trusted"""
    cache = E.__dict__.setdefault('ext_classes', {})
    if dotted in cache:
        return cache[dotted]
    spec = [p.split('=') for p in SIGS[dotted].split()]
    names = [p[0] for p in spec]
    bases = [OBJECT]
    if dotted == SRC + 'AreaSource':
        bases = [ext_class(E, SRC + 'PointSource')]
    cls = E.make_class(dotted, bases, {}, 'openquake.hazardlib')

    def new(E, c, args, kw):
        if len(args) > len(names):
            E.raise_(TYPE_ERROR, 'too many arguments')
        d = dict(zip(names, args))
        for k, v in kw.items():
            if k in d or k not in names:
                E.raise_(TYPE_ERROR, 'argument %s' % k)
            d[k] = v
        for p in spec:
            if p[0] not in d:
                if len(p) == 1:
                    E.raise_(TYPE_ERROR, 'missing %s' % p[0])
                d[p[0]] = float(p[1])
        return E.alloc(HInst(cls, d))
    E.construct[dotted] = new
    if dotted.endswith('.from_fault_data'):
        E.externals[dotted] = lambda E, a, k: new(E, cls, a, k)
    else:
        E.ext_values[dotted] = cls
    cache[dotted] = cls
    return cls


TYPE_ERROR = 'TypeError'


def hazardlib(E):
    for d in sorted(SIGS):
        ext_class(E, d)
    E.externals['math.log10'] = log10
    E.modules.pop('openquake.commonlib.source', None)


def is_ext(E, v, dotted):
    return isinstance(v, Ref) and isinstance(E.h(v), HInst) and \
        E.h(v).cls is ext_class(E, dotted)


powf = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
lg = z3.Function('log10', z3.RealSort(), z3.RealSort())
p10 = lambda e: powf(z3.RealVal(10), e)
ASRC = ('tectonic_region_type', 'rupture_mesh_spacing',
        'magnitude_scaling_relationship', 'rupture_aspect_ratio',
        'upper_seismogenic_depth', 'lower_seismogenic_depth',
        'nodal_plane_distribution', 'hypocenter_distribution',
        'temporal_occurrence_model')


def log10(E, args, kw):
    x = E.z(args[0], TReal)
    if not E.branch(x > 0):
        E.raise_('ValueError', 'math domain error')
    E.assume(p10(lg(x)) == x)
    return Sym(TReal, lg(x))


def gr_mfd(E, name='m'):
    dotted = MFD + 'TruncatedGRMFD'
    return E.alloc(HInst(ext_class(E, dotted), dict(
        (n, E.const(name + n, TReal)) for n in SIGS[dotted].split())))


def ed_mfd(E, rates, name='m'):
    return E.alloc(HInst(ext_class(E, MFD + 'EvenlyDiscretizedMFD'), {
        'min_mag': E.const(name + 'min_mag', TReal),
        'bin_width': E.const(name + 'bin_width', TReal),
        'occurrence_rates': E.new_list(rates)}))


def snapshot(E, inst):
    return dict(E.h(inst).attrs)


def unchanged(E, what, inst, before):
    now = E.h(inst).attrs
    E.prove('%s: the same attributes' % what, sorted(now) == sorted(before))
    for n in sorted(before):
        E.prove('%s: %s is unchanged' % (what, n), now[n] is before[n] or
                E.eq(now[n], before[n]))


PT = TStruct('Pt', [('source_id', TStr), ('name', TStr), ('lon', TReal),
                    ('lat', TReal)])
PTs = TSeq(PT)


def consume(E, gen, body):
    """for v in gen: body(v)"""
    cell = []
    if isinstance(gen, Ref):
        E.loop_gen(E.h(gen), cell.append, lambda: body(cell.pop()), None)
    else:
        raise Unsupported('not a generator')


class Fresh(object):
    """objects given by a generator are made in the current iteration"""
    def __init__(self, E):
        self.mark = 0
        E.split_hooks.append(self.at)

    def at(self, E, *a):
        self.mark = E.fresh_id()

    def check(self, E, v):
        E.prove('a new object each time', isinstance(v, Ref) and
                v.oid > self.mark)


def t_area(E, gr, rate=TReal):
    """area_to_point_sources: one point per mesh point, with its share"""
    hazardlib(E)
    lats = E.const('lats', Reals)
    disc = E.const('disc', TReal)
    sid, nm = E.const('sid', TStr), E.const('nm', TStr)
    dash = z3.StringVal('-')
    n = z3.Const('n', z3.IntSort())
    E.nthfold(Reals)

    def step(a, x, p):
        k = E.len(Reals, p)
        return PTs.rawsnoc(a, PT.mk(
            source_id=z3.Concat(sid.e, dash, z3.IntToStr(k)),
            name=z3.Concat(nm.e, dash, z3.IntToStr(k)), lon=x,
            lat=E.z(E.nth(lats, k), TReal)))
    pts = E.add_fold(Fold('points', TReal, PTs, PTs.nil, step))
    share = E.add_fold(Fold(
        'shares', rate, Reals, Reals.nil, lambda a, x, p: Reals.rawsnoc(
            a, (x if rate is TReal else z3.ToReal(x)) / z3.ToReal(n))))
    lons, rates = E.const('lons', Reals), E.const('rates', TSeq(rate))
    fresh = Fresh(E)
    f = E.lookup_path('source.area_to_point_sources')

    def run():
        fresh.mark = 0
        E.assume(z3.And(n == E.len(Reals, lons.e), n > 0,
                        n == E.len(Reals, lats.e)))
        mfd = gr_mfd(E) if gr else ed_mfd(E, rates)
        Mesh = TObj('Mesh', attrs={
            'lons': lambda E, o: E.new_list(lons),
            'lats': lambda E, o: E.new_list(lats)},
            hooks={'len': lambda E, o: Sym(TInt, n)})

        def discretize(E, o, a, k):
            E.prove('with the given step', E.eq((a + list(k.values()))[0],
                                                disc))
            return E.const('mesh', Mesh)
        Poly = TObj('Poly', meths={'discretize': discretize})
        d = dict((x, E.const(x, Any)) for x in ASRC)
        d.update(source_id=sid, name=nm, mfd=mfd, area_discretization=disc,
                 polygon=E.const('poly', Poly))
        area = E.alloc(HInst(ext_class(E, SRC + 'AreaSource'), d))
        a0, m0 = snapshot(E, area), snapshot(E, mfd)
        if gr:
            a = m0['a_val'].e
            E.assume(p10(a) > 0)
        out = E.new_list(Sym(PTs, PTs.nil))

        def body(v):
            E.prove('a point source', is_ext(E, v, SRC + 'PointSource'))
            fresh.check(E, v)
            at = E.h(v).attrs
            for x in ASRC:
                E.prove('%s is that of the area' % x, E.eq(at[x], d[x]))
            loc = at['location']
            E.prove('a point', is_ext(E, loc, GEO + 'Point'))
            la = E.h(loc).attrs
            E.prove('at the surface', E.eq(la['depth'], 0.0))
            m = at['mfd']
            kind = MFD + ('TruncatedGRMFD' if gr else
                          'EvenlyDiscretizedMFD')
            E.prove('the kind of the distribution', is_ext(E, m, kind))
            ma = E.h(m).attrs
            for x in (('min_mag', 'max_mag', 'bin_width', 'b_val') if gr
                      else ('min_mag', 'bin_width')):
                E.prove('%s is that of the area' % x, E.eq(ma[x], m0[x]))
            if gr:
                v_ = E.z(ma['a_val'], TReal)
                E.assume(p10(v_) * p10(a - v_) == p10(a))
                E.assume(p10(v_) > 0)
                E.prove('the rates of the points add up to those of the '
                        'area', p10(v_) * z3.ToReal(n) == p10(a))
            else:
                E.prove('the rates of the points add up to those of the '
                        'area', E.z(ma['occurrence_rates'], Reals) ==
                        share(rates.e))
            E.call(E.getattr(out, 'append'), [Sym(PT, PT.mk(
                source_id=E.z(at['source_id'], TStr),
                name=E.z(at['name'], TStr),
                lon=E.z(la['longitude'], TReal),
                lat=E.z(la['latitude'], TReal)))])
        consume(E, E.call(f, [area, disc]), body)
        E.prove('one point source per point of the mesh, in order, with '
                'distinct identifiers', E.z(out, PTs) == pts(lons.e))
        unchanged(E, 'the area', area, a0)
        unchanged(E, 'its distribution', mfd, m0)
        reach(E, 'end')
    return run


def t_shares(E):
    """n times the share of a rate is the rate; the numbers are distinct"""
    n = z3.Const('n', z3.IntSort())
    x = z3.Const('x', z3.RealSort())

    def run():
        E.assume(n > 0)
        E.prove('n equal shares add up to the whole',
                z3.ToReal(n) * (x / z3.ToReal(n)) == x)
        i, j = z3.Ints('i j')
        E.assume(z3.And(i >= 0, j >= 0, i != j))
        # trusted: printing integers is injective
        E.assume(z3.StrToInt(z3.IntToStr(i)) == i)
        E.assume(z3.StrToInt(z3.IntToStr(j)) == j)
        E.prove('different numbers print differently',
                z3.IntToStr(i) != z3.IntToStr(j))
        reach(E, 'end')
    return run


PieceT = TStruct('Piece', [('source_id', TStr), ('mag', TReal),
                           ('rate', TReal)])
PieceTs = TSeq(PieceT)
MagRate = TTup(TReal, TReal)
MagRates = TSeq(MagRate)


def t_fault(E):
    """split_fault_source: one source per magnitude with non-zero rate"""
    hazardlib(E)
    sid = E.const('sid', TStr)
    dash = z3.StringVal('-')
    pcs = E.add_fold(Fold(
        'pieces', MagRate, PieceTs, PieceTs.nil, lambda a, x, p: z3.If(
            MagRate.get(x, 1) == 0, a, PieceTs.rawsnoc(a, PieceT.mk(
                source_id=z3.Concat(sid.e, dash, z3.IntToStr(
                    E.len(PieceTs, a))),
                mag=MagRate.get(x, 0), rate=MagRate.get(x, 1))))))
    S = E.const('S', MagRates)
    fresh = Fresh(E)
    f = E.lookup_path('source.split_fault_source')
    Mfd = TObj('AnyMfd', attrs={'bin_width': TReal}, meths={
        'get_annual_occurrence_rates': lambda E, o, a, k: E.new_list(S)})
    W = E.const('mfd', Mfd)

    def tmpl(E, seq, L0, node):
        if seq is None or seq.t != MagRates:
            return []
        return [('%s = number of pieces' % x, lambda p, L, x=x, e0=e0:
                 L[x][1] == e0 + E.len(PieceTs, pcs(p)))
                for x, (t, e0) in L0.items() if t is TInt]
    E.templates.append(tmpl)

    def run():
        fresh.mark = 0
        d = dict((x, E.const(x, Any)) for x in (
            'name', 'tectonic_region_type', 'rupture_mesh_spacing', 'rake',
            'fault_trace', 'temporal_occurrence_model', 'edges'))
        d.update(source_id=sid, mfd=W)
        cls = ext_class(E, SRC + ('SimpleFaultSource', 'ComplexFaultSource')[
            E.choose(2)])
        src = E.alloc(HInst(cls, d))
        s0 = snapshot(E, src)
        out = E.new_list(Sym(PieceTs, PieceTs.nil))

        def body(v):
            fresh.check(E, v)
            E.prove('the same kind of source', isinstance(
                E.h(v), HInst) and E.h(v).cls is cls)
            at = E.h(v).attrs
            E.prove('the same parameters', sorted(at) == sorted(s0))
            for x in sorted(s0):
                if x not in ('source_id', 'mfd'):
                    E.prove('%s is that of the source' % x,
                            E.eq(at[x], s0[x]))
            m = at['mfd']
            E.prove('a discretized distribution', is_ext(
                E, m, MFD + 'EvenlyDiscretizedMFD'))
            ma = E.h(m).attrs
            E.prove('the bin width', E.eq(ma['bin_width'], Sym(
                TReal, Mfd.attrfn('bin_width')(W.e))))
            r = E.content(ma['occurrence_rates'])
            E.prove('a single rate', isinstance(r, list) and len(r) == 1)
            E.call(E.getattr(out, 'append'), [Sym(PieceT, PieceT.mk(
                source_id=E.z(at['source_id'], TStr),
                mag=E.z(ma['min_mag'], TReal), rate=E.z(r[0], TReal)))])
        consume(E, E.call(f, [src]), body)
        E.prove('one source per magnitude with non-zero rate, in order, '
                'with exactly that magnitude and rate',
                E.z(out, PieceTs) == pcs(S.e))
        unchanged(E, 'the source', src, s0)
        reach(E, 'end')
    return run


def t_split(E):
    """split_source: areas into points, faults by magnitude, others kept"""
    hazardlib(E)
    Res = TObj('Res')
    Ress = TSeq(Res)
    disc = E.const('disc', TReal)
    R = E.const('R', Ress)
    f = E.lookup_path('source.split_source')

    def run():
        kinds = ('AreaSource', 'SimpleFaultSource', 'ComplexFaultSource',
                 'PointSource', 'CharacteristicFaultSource')
        kind = kinds[E.choose(5)]
        src = E.alloc(HInst(ext_class(E, SRC + kind), {
            'source_id': E.const('sid', TStr)}))
        s0 = snapshot(E, src)
        called = []

        def area(E, a, k):
            E.prove('the source and the step', a[0] == src and
                    E.eq((a[1:] + list(k.values()))[0], disc))
            called.append('area')
            return E.new_list(R)

        def fault(E, a, k):
            E.prove('the source', a[0] == src)
            called.append('fault')
            return E.new_list(R)
        E.contracts['source.area_to_point_sources'] = area
        E.contracts['source.split_fault_source'] = fault
        out = E.content(E.call(f, [src, disc]))
        if kind == 'AreaSource':
            E.prove('split as an area', called == ['area'])
        elif 'plexF' in kind or 'pleF' in kind:
            E.prove('split as a fault', called == ['fault'])
        else:
            E.prove('returned as it is', called == [] and out == [src])
        if called:
            E.prove('every piece once, in order',
                    E.z(E.new_list(out), Ress) == R.e)
        unchanged(E, 'the source', src, s0)
        reach(E, 'end')
    return run


# ---------------------------------------------------------------- blocks
Sites = TObj('Sites', hooks={'truth': lambda E, o: z3.Function(
    'not empty', o.t.sort(), z3.BoolSort())(o.e)})
OSites = TOpt(Sites)
sitesf = z3.Function('sites of', CSrc.sort(), OSites.sort())
accept = lambda x: z3.Not(OSites.is_none(sitesf(x)))
piecesf = z3.Function('pieces of', CSrc.sort(), CSrcs.sort())
Blocks = TSeq(TObj('Block'))
blocksf = z3.Function('blocks', CSrcs.sort(), z3.RealSort(), Blocks.sort())


def t_weight_calls(E):
    """block_splitter asks for the weight of every item once, in order"""
    Items, wf = CSrcs, rupt
    S = E.const('S', Items)
    M = E.const('M', TReal)
    f = E.lookup_path('general.block_splitter')
    nonneg = E.add_fold(Fold('weights >= 0', CSrc, TBool, T, lambda a, x, p:
                             z3.And(a, rupt(x) >= 0)))

    def run():
        log = E.new_list(Sym(Items, Items.nil))

        def weight(E, a, k):
            E.call(E.getattr(log, 'append'), [a[0]])
            return Sym(TInt, rupt(E.z(a[0], CSrc)))
        E.assume(z3.And(M.e > 0, nonneg(S.e)))
        gen = E.call(f, [S, M, UFun('weight', weight)])
        consume(E, gen, lambda v: None)
        E.prove('the weight of every item is asked once, in order',
                E.z(log, Items) == S.e)
        reach(E, 'end')
    return run


def t_gen_blocks(E, real):
    trt, n0 = E.const('trt', TStr), E.const('n', TInt)
    lo, hi = E.const('lo', OReal), E.const('hi', OReal)
    M = E.const('max_weight', TReal if real else TInt)
    disc = E.const('disc', TReal)
    cat = lambda a, b: E.cat(CSrcs, a, b)
    flat = E.add_fold(Fold(
        'pieces of the accepted', CSrc, CSrcs, CSrcs.nil, lambda a, x, p:
        z3.If(accept(x), cat(a, piecesf(x)), a)))
    rsum = E.add_fold(Fold(
        'ruptures', CSrc, TInt, z3.IntVal(0), lambda a, x, p: a + rupt(x),
        hom=lambda a, b: a + b))
    rtot = E.add_fold(Fold(
        'ruptures of the accepted', CSrc, TInt, z3.IntVal(0),
        lambda a, x, p: z3.If(accept(x), a + rsum(piecesf(x)), a)))
    tot = E.add_fold(Fold(
        'total', CSrc, TInt, z3.IntVal(0), lambda a, x, p: a + z3.If(
            accept(x), E.len(CSrcs, piecesf(x)), 1)))
    S = E.const('S', CSrcs)
    E.split_hooks.append(lambda E, seq, p, x, rest: E.reg(
        CSrcs, piecesf(x)) if seq.t == CSrcs and seq.e.eq(S.e) else None)

    def run():
        c = coll(E, trt, S, lo, hi, n0)
        cell = E.alloc(HInst(OBJECT, {'calls': 0}))

        def split(E, a, k):
            E.prove('with the given discretization', E.eq(
                (a[1:] + list(k.values()))[0], disc))
            x = E.z(a[0], CSrc)
            return E.new_list(Sym(CSrcs, E.reg(CSrcs, piecesf(x))))
        E.contracts['source.split_source'] = split
        got = {}

        def splitter(E, a, k):
            d = dict(zip(('items', 'max_weight', 'weight', 'kind'), a))
            d.update(k)
            items = E.new_list(Sym(CSrcs, CSrcs.nil))
            E.prove('weighed', 'weight' in d)
            got['limit'] = E.z(d['max_weight'], TReal)
            if d.get('kind') is not None:
                x, y = E.fresh('x', CSrc), E.fresh('y', CSrc)
                E.prove('pieces are not told apart', E.eq(
                    E.call(d['kind'], [x]), E.call(d['kind'], [y])))

            def body(v):
                E.call(E.getattr(items, 'append'), [v])
                w = E.call(d['weight'], [v])
                E.prove('the weight is the number of ruptures',
                        E.z(w, TInt) == rupt(E.z(v, CSrc)))
            consume(E, d['items'], body)
            got['items'] = E.z(items, CSrcs)
            return E.new_list(Sym(Blocks, blocksf(got['items'],
                                                  got['limit'])))
        E.contracts['general.block_splitter'] = splitter
        f = UFun('src_filter', lambda E, a, k: Sym(OSites, sitesf(
            E.z(a[0], CSrc))))
        out, exc = attempt(E, lambda: E.content(E.call(
            E.getattr(c, 'gen_blocks'), [f, M, disc])))
        s, l, h, k, t = parts(E, c)
        E.prove('the magnitudes and the region type are kept', z3.And(
            l == lo.e, h == hi.e, t == trt.e))
        if exc is not None:
            E.prove('refused only without sources', S.e == CSrcs.nil)
            E.prove('a refusal changes nothing', z3.And(s == S.e, k == n0.e))
            reach(E, 'refused')
            return
        E.prove('a collector without sources is refused', S.e != CSrcs.nil)
        n = z3.ToReal(E.len(CSrcs, S.e))
        m = M.e if real else z3.ToReal(M.e)
        E.prove('all the pieces of the accepted sources once, in order',
                got['items'] == flat(S.e))
        E.prove('the scaled limit', got['limit'] == m * n / (n + 100))
        E.prove('the blocks of those pieces', E.z(E.new_list(
            out), Blocks) == blocksf(got['items'], got['limit']))
        E.prove('the collector holds exactly the pieces of the accepted '
                'sources', s == flat(S.e))
        E.prove('the ruptures of the pieces are counted',
                k == n0.e + rtot(S.e))
        fs = E.content(E.getattr(c, 'filtered_sources'))
        E.prove('the number of pieces of accepted sources',
                E.z(fs[0], TInt) == E.len(CSrcs, flat(S.e)))
        E.prove('out of those plus the discarded sources',
                E.z(fs[1], TInt) == tot(S.e))
        reach(E, 'end')
    return run



# ------------------------------------------------------- source models
Nrml = TObj('NrmlSource')
Nrmls = TSeq(Nrml)
MSrc = TObj('MSource', attrs={'tectonic_region_type': TStr,
                              'source_id': TStr})
MSrcs = TSeq(MSrc)
Coll = TObj('Coll', attrs={'trt': TStr}, mut={'sources': MSrcs})
collof = z3.Function('collector of', z3.StringSort(), Coll.sort())
convf = z3.Function('converted', Nrml.sort(), MSrc.sort())
CMAP = TMap(TStr, Coll)
IDS = TSet(TStr)


def t_parse(E):
    """parse_source_model: one collector per region type with exactly its
    sources in document order"""
    mtrt = MSrc.attrfn('tectonic_region_type')
    mid = MSrc.attrfn('source_id')
    ctrt = Coll.attrfn('trt')
    tt = z3.Const('tt', z3.StringSort())    # any region type
    none = z3.K(z3.StringSort(), z3.BoolVal(False))
    conv = E.add_fold(Fold(
        'converted', Nrml, MSrcs, MSrcs.nil, lambda a, x, p:
        MSrcs.rawsnoc(a, convf(x))))
    mine = E.add_fold(Fold(
        'of the type', Nrml, MSrcs, MSrcs.nil, lambda a, x, p: z3.If(
            mtrt(convf(x)) == tt, MSrcs.rawsnoc(a, convf(x)), a)))
    types = E.add_fold(Fold(
        'types', Nrml, IDS, none, lambda a, x, p: z3.Store(
            a, mtrt(convf(x)), T)))
    ids = E.add_fold(Fold(
        'identifiers', Nrml, IDS, none, lambda a, x, p: z3.Store(
            a, mid(convf(x)), T)))
    distinct = E.add_fold(Fold(
        'distinct', Nrml, TBool, T, lambda a, x, p: z3.And(
            a, z3.Not(z3.Select(ids(p), mid(convf(x)))))))
    lem = E.induct('a type occurs iff it has sources', Nrmls, lambda s:
                   z3.Select(types(s), tt) == (mine(s) != MSrcs.nil))
    mem = E.memfold(MSrcs)
    M = E.const('M', Nrmls)
    V = E.const('V', TSeq(Coll))
    R = E.const('R', TSeq(Coll))

    def tmpl(E, seq, L0, node):
        out = []
        if seq is None or seq.t not in (Nrmls, MSrcs):
            return out
        for n, (lt, e) in L0.items():
            if lt == CMAP:
                k = z3.Const('k', z3.StringSort())
                out += [
                    ('%s: one collector per type' % n, lambda p, L, n=n:
                     CMAP.has(L[n][1]) == types(p)),
                    ('%s: the collector of the type' % n, lambda p, L, n=n:
                     z3.ForAll([k], z3.Implies(
                         z3.Select(CMAP.has(L[n][1]), k),
                         z3.Select(CMAP.val(L[n][1]), k) == collof(k))))]
            if n.endswith('.sources'):
                out.append(('%s: the sources of the type' % n,
                            lambda p, L, n=n: z3.Implies(
                                z3.Select(types(p), tt), z3.Select(
                                    L[n][1], collof(tt)) == mine(p))))
        return out
    E.templates.append(tmpl)

    def inj(t):
        """collector of: injective, the type can be read back"""
        return ctrt(collof(t)) == t

    def at(E, seq, p, x, rest):
        if seq.t in (Nrmls, MSrcs):
            y = convf(x) if seq.t == Nrmls else x
            E.assume(inj(mtrt(y)))
            E.assume(inj(tt))
            if seq.t == Nrmls:
                E.assume(lem(p))
    E.split_hooks.append(at)

    def lt(y, z):
        a = lambda v: E.len(MSrcs, z3.Select(E.array(Coll, 'sources'), v))
        return z3.Or(a(y) < a(z), z3.And(a(y) == a(z), ctrt(y) < ctrt(z)))
    E.externals['openquake.nrmllib.hazard.parsers.SourceModelParser'] = \
        lambda E, a, k: E.const('parser', TObj('Parser', meths={
            'parse': lambda E, o, x, y: (
                E.prove('the given file is read', E.eq(a[0], 'file.xml')),
                E.new_list(M))[1]}))
    E.modules.pop('openquake.commonlib.source', None)

    def run():
        log = E.new_list(Sym(MSrcs, MSrcs.nil))
        got = {}

        def created(E):
            return E.st.ghost.get(('uncons', 'created'), ())

        def new(E, cls, a, k):
            d = dict(zip(('trt', 'sources'), a), **k)
            if d.get('sources') is not None or set(d) - {'trt', 'sources'}:
                raise Unsupported('a collector created with sources')
            t = E.z(d['trt'], TStr)
            E.assume(inj(t))
            # `collector of` a type: the first one created for it; another
            # one (for a type already seen) is a collector of its own
            c = Sym(Coll, collof(t))
            first = T
            if E.loop_p and E.loop_p[-1] is not None and \
                    E.loop_p[-1].sort() == Nrmls.sort():
                first = z3.Not(z3.Select(types(E.loop_p[-1]), t))
            first = z3.And(first, *[u != t for u in created(E)])
            if not E.branch(first):
                c = E.fresh('spare', Coll)
                E.assume(ctrt(c.e) == t)
                u = z3.Const('u', z3.StringSort())
                E.assume(z3.ForAll([u], collof(u) != c.e,
                                   patterns=[collof(u)]))
            E.st.ghost['uncons', 'created'] = created(E) + (t,)
            E.setattr(c, 'sources', Sym(MSrcs, MSrcs.nil))
            return c
        E.construct['SourceCollector'] = new

        def update(E, o, a, k):
            x = E.z(a[0], MSrc)
            if not E.branch(ctrt(o.e) == mtrt(x)):
                E.raise_('AssertionError', 'type')
            E.prove('the uncertainties are applied to a source before it is '
                    'collected', mem(E.z(log, MSrcs), x))
            s = E.z(E.getattr(o, 'sources'), MSrcs)
            E.setattr(o, 'sources', Sym(MSrcs, MSrcs.rawsnoc(s, x)))
        Coll.meths['update'] = update

        def values(E, o, h):
            got['m'] = h.m.e
            return E.new_list(V)
        E.externals['dict.values'] = values

        def order(E, c, key, reverse):
            E.prove('the collectors are sorted', c.t == V.t and
                    c.e.eq(V.e) and reverse in (False, None))
            y, z = E.fresh('y', Coll), E.fresh('z', Coll)
            if key is not None:
                E.prove('by number of sources and then by type', E.lt(
                    E.call(key, [y]), E.call(key, [z])) == lt(y.e, z.e))
            return E.new_list(R)
        E.externals['sorted'] = order
        conversion = UFun('nrml_to_hazardlib', lambda E, a, k: Sym(
            MSrc, convf(E.z(a[0], Nrml))))

        def uncertain(E, a, k):
            E.call(E.getattr(log, 'append'), [a[0]])
        E.assume(lem(M.e))
        r, exc = attempt(E, lambda: E.content(E.call(
            E.lookup_path('source.parse_source_model'),
            ['file.xml', conversion, UFun('uncertain', uncertain)][:3])))
        if exc is not None:
            E.prove('a refusal is a DuplicateID',
                    exc_is(E, exc, 'source.DuplicateID'))
            E.prove('refused only for repeated identifiers',
                    z3.Not(distinct(M.e)))
            reach(E, 'refused')
            return
        E.prove('repeated identifiers are refused', distinct(M.e))
        E.prove('the uncertainties are applied once to every source, in '
                'order', E.z(log, MSrcs) == conv(M.e))
        E.prove('the sorted collectors', isinstance(r, Sym) and
                r.e.eq(R.e))
        has = z3.Select(CMAP.has(got['m']), tt)
        E.prove('one collector per region type of the model',
                has == (mine(M.e) != MSrcs.nil))
        c = z3.Select(CMAP.val(got['m']), tt)
        E.prove('the collector of the type', z3.Implies(
            has, c == collof(tt)))
        E.prove('exactly the sources of the type, in document order',
                z3.Implies(has, z3.Select(E.array(Coll, 'sources'), c) ==
                           mine(M.e)))
        reach(E, 'accepted')
    return run


def t_parse_default(E):
    """without uncertainties the sources are only collected"""
    def run():
        f = E.lookup_path('source.parse_source_model')
        E.externals['openquake.nrmllib.hazard.parsers.SourceModelParser'] = \
            lambda E, a, k: E.const('parser', TObj('Parser', meths={
                'parse': lambda E, o, x, y: E.new_list([])}))
        E.modules.pop('openquake.commonlib.source', None)
        f = E.lookup_path('source.parse_source_model')
        r = E.content(E.call(f, ['file.xml', None]))
        E.prove('no sources, no collectors', r == [])
        reach(E, 'end')
    return run



# ------------------------------------------------------------ conversion
MOD = 'openquake.nrmllib.models.'
NRML = dict((n, b) for n, b in [
    ('PointSource', None), ('AreaSource', 'PointSource'),
    ('SimpleFaultSource', None), ('ComplexFaultSource', 'SimpleFaultSource'),
    ('CharacteristicSource', None), ('SimpleFaultRuptureModel', None),
    ('ComplexFaultRuptureModel', 'SimpleFaultRuptureModel'),
    ('SimpleFaultGeometry', None), ('ComplexFaultGeometry', None),
    ('TGRMFD', None), ('IncrementalMFD', None)])
Plane = TObj('NodalPlane', attrs=dict.fromkeys(
    ('probability', 'strike', 'dip', 'rake'), TReal))
Depth = TObj('HypoDepth', attrs={'probability': TReal, 'depth': TReal})
Planes, Depths = TSeq(Plane), TSeq(Depth)
PLANAR = ('strike', 'dip', 'top_left', 'top_right', 'bottom_right',
          'bottom_left')
Planar = TObj('PlanarModel', attrs=dict.fromkeys(PLANAR, Any))
Texts = TSeq(TStr)


def planar_dict(E, o):
    r = E.alloc(HDict(dict((n, E.val(Any, Planar.attrfn(n)(o.e)))
                           for n in PLANAR)))
    E.h(r).onupdate = lambda E, h: E.prove(
        'the input is unchanged', z3.And(sorted(h.d) == sorted(PLANAR), *[
            E.truth_eq(h.d.get(n), E.val(Any, Planar.attrfn(n)(o.e)))
            for n in PLANAR]))
    return r


Planar.attrs['__dict__'] = planar_dict
Planar.hooks['vars'] = planar_dict


class Conversion(object):
    """the NRML models, shapely and the converter, with the expected values
    of the parameters"""
    def __init__(self, E, dims):
        self.E = E
        hazardlib(E)
        self.cls = {}
        for n in ('PointSource', 'AreaSource', 'SimpleFaultSource',
                  'ComplexFaultSource', 'CharacteristicSource',
                  'SimpleFaultRuptureModel', 'ComplexFaultRuptureModel',
                  'SimpleFaultGeometry', 'ComplexFaultGeometry', 'TGRMFD',
                  'IncrementalMFD'):
            b = NRML[n]
            self.cls[n] = E.ext_values[MOD + n] = E.make_class(
                'nrml ' + n, [self.cls[b] if b else OBJECT], {},
                'openquake.nrmllib.models')
        self.Tup = TTup(*[TReal] * dims)
        Tups = self.Tups = TSeq(self.Tup)
        self.PointT = self.struct(GEO + 'Point', dict.fromkeys(
            ('longitude', 'latitude', 'depth'), TReal))
        self.Points = TSeq(self.PointT)
        self.LineT = self.struct(GEO + 'Line', {'points': self.Points})
        self.Lines = TSeq(self.LineT)
        self.NpT = self.struct(GEO + 'NodalPlane', dict.fromkeys(
            ('strike', 'dip', 'rake'), TReal))
        PlanarT = dict.fromkeys(PLANAR, Any)
        PlanarT['mesh_spacing'] = TReal
        self.PlanarT = self.struct(GEO + 'PlanarSurface', PlanarT)
        self.coordsf = z3.Function('coords of', z3.StringSort(), Tups.sort())
        self.ringf = z3.Function('ring of', z3.StringSort(), Tups.sort())
        self.xf = z3.Function('x of', z3.StringSort(), z3.RealSort())
        self.yf = z3.Function('y of', z3.StringSort(), z3.RealSort())
        self.msrf = z3.Function('scaling', z3.StringSort(), Any.sort())
        self.knownf = z3.Function('known scaling', z3.StringSort(),
                                  z3.BoolSort())
        self.fault = None       # exception raised by shapely
        point = self.point
        self.points = E.add_fold(Fold(
            'points', self.Tup, self.Points, self.Points.nil,
            lambda a, x, p: self.Points.rawsnoc(a, point(x)),
            hom=lambda a, b: E.cat(self.Points, a, b)))
        self.lines = E.add_fold(Fold(
            'lines', TStr, self.Lines, self.Lines.nil, lambda a, x, p:
            self.Lines.rawsnoc(a, self.line(x)),
            hom=lambda a, b: E.cat(self.Lines, a, b)))
        NpPair = TTup(TReal, self.NpT)
        self.NPD, self.HD = TSeq(NpPair), TSeq(TTup(TReal, TReal))
        self.npd = E.add_fold(Fold(
            'nodal planes', Plane, self.NPD, self.NPD.nil, lambda a, x, p:
            self.NPD.rawsnoc(a, NpPair.mk(
                Plane.attrfn('probability')(x), self.NpT.mk(**dict(
                    (n, Plane.attrfn(n)(x))
                    for n in ('strike', 'dip', 'rake')))))))
        self.hd = E.add_fold(Fold(
            'depths', Depth, self.HD, self.HD.nil, lambda a, x, p:
            self.HD.rawsnoc(a, self.HD.el.mk(
                Depth.attrfn('probability')(x), Depth.attrfn('depth')(x)))))
        self.Planars = TSeq(self.PlanarT)
        self.spacing = E.const('rms', TReal)
        self.planars = E.add_fold(Fold(
            'planar surfaces', Planar, self.Planars, self.Planars.nil,
            lambda a, x, p: self.Planars.rawsnoc(a, self.PlanarT.mk(
                mesh_spacing=self.spacing.e, **dict(
                    (n, Planar.attrfn(n)(x)) for n in PLANAR)))))
        self.planes = E.const('planes', Planes)
        self.depths = E.const('depths', Depths)
        self.int_edges = E.const('int_edges', Texts)
        self.surfaces = E.const('surfaces', TSeq(Planar))
        self.rates = E.const('rates', Reals)
        E.externals['shapely.wkt.loads'] = self.loads
        E.externals[
            'openquake.hazardlib.scalerel.get_available_magnitude_scalerel'
        ] = lambda E, a, k: E.const('available', TObj('Available', hooks={
            'getitem': self.scalerel}))
        E.modules.pop('openquake.commonlib.source', None)
        E.split_hooks.append(self.at)

    def at(self, E, seq, p, x, rest):
        if seq.t == Texts:
            E.reg(self.Tups, self.coordsf(x))

    def struct(self, dotted, fields):
        cls = ext_class(self.E, dotted)
        return TStruct(cls.name, sorted(fields.items()), cls)

    def point(self, x):
        g = self.Tup.get
        return self.PointT.mk(longitude=g(x, 0), latitude=g(x, 1), depth=g(
            x, 2) if len(self.Tup.els) > 2 else z3.RealVal(0))

    def line(self, text):
        return self.LineT.mk(points=self.points(self.coordsf(text)))

    def loads(self, E, a, k):
        if self.fault is not None:
            raise PyExc(self.fault)
        e = E.z(a[0], TStr)
        seq = lambda f: lambda E, o: E.new_list(Sym(
            self.Tups, E.reg(self.Tups, f(e))))
        ring = TObj('Ring', attrs={'coords': seq(self.ringf)})
        return E.fresh('shape', TObj('Shape', attrs={
            'x': lambda E, o: Sym(TReal, self.xf(e)),
            'y': lambda E, o: Sym(TReal, self.yf(e)),
            'coords': seq(self.coordsf),
            'exterior': lambda E, o: E.fresh('ring', ring)}))

    def scalerel(self, E, o, a, *rest):
        e = E.z(a, TStr)
        if not E.branch(self.knownf(e)):
            E.raise_('KeyError', a)
        return UFun('scalerel', lambda E, a, k: Sym(Any, self.msrf(e)))

    # --------------------------------------------------------- the inputs
    def model(self, kind, **attrs):
        E = self.E
        return E.alloc(HInst(self.cls[kind], dict(
            (k, E.const(kind + '.' + k, v) if hasattr(v, 'sort') and not
             isinstance(v, (Sym, Ref)) else v)
            for k, v in attrs.items())))

    def mfd_model(self):
        E = self.E
        if E.choose(2):
            return self.model('TGRMFD', a_val=TReal, b_val=TReal,
                              min_mag=TReal, max_mag=TReal)
        return self.model('IncrementalMFD', min_mag=TReal, bin_width=TReal,
                          occur_rates=E.new_list(self.rates))

    def simple(self, name='SimpleFaultGeometry'):
        return self.model(name, wkt=TStr, upper_seismo_depth=TReal,
                          lower_seismo_depth=TReal, dip=TReal)

    def complex(self):
        return self.model('ComplexFaultGeometry', top_edge_wkt=TStr,
                          bottom_edge_wkt=TStr,
                          int_edges=self.E.new_list(self.int_edges))

    def source(self, kind):
        E = self.E
        at = dict(id=TStr, name=TStr, trt=TStr, mfd=self.mfd_model())
        par = dict(mag_scale_rel=TStr, rupt_aspect_ratio=TReal)
        if kind in ('PointSource', 'AreaSource'):
            at.update(par, geometry=self.simple(),
                      nodal_plane_dist=E.new_list(self.planes),
                      hypo_depth_dist=E.new_list(self.depths))
        elif kind == 'SimpleFaultSource':
            at.update(par, geometry=self.simple(), rake=TReal)
        elif kind == 'ComplexFaultSource':
            at.update(par, geometry=self.complex(), rake=TReal)
        else:
            at.update(rake=TReal, surface=[
                self.simple, self.complex,
                lambda: E.new_list(self.surfaces)][E.choose(3)]())
        return self.model(kind, **at)

    def rupture(self, kind):
        E = self.E
        return self.model(
            kind, magnitude=TReal, rake=TReal, geometry=self.simple()
            if kind.startswith('Simple') else self.complex(),
            hypocenter=[E.const('hypo', self.Tup), E.new_list([
                E.const('h%d' % i, TReal)
                for i in range(len(self.Tup.els))])][E.choose(2)])

    def everything(self, o):
        """the attributes of an input, at every level"""
        E, out = self.E, {}

        def walk(path, v):
            if isinstance(v, Ref) and isinstance(E.h(v), HInst):
                for n, x in E.h(v).attrs.items():
                    out['%s.%s' % (path, n)] = x
                    walk('%s.%s' % (path, n), x)
            elif isinstance(v, Ref) and isinstance(E.h(v), HList):
                c = E.h(v).content
                out[path + '[:]'] = tuple(c) if isinstance(c, list) else c
        walk('', o)
        return out

    # ------------------------------------------------------- the outputs
    def attrs(self, what, v, dotted, **expected):
        """v is an object of the class with exactly these parameters"""
        E = self.E
        E.prove('%s: a %s' % (what, dotted.rsplit('.', 1)[1]),
                is_ext(E, v, dotted))
        at = E.h(v).attrs
        for n in sorted(expected):
            x = expected[n]
            if callable(x):
                x('%s.%s' % (what, n), at[n])
            elif isinstance(x, z3.ExprRef):
                E.prove('%s: %s' % (what, n), False if at[n] is None else
                        E.z(at[n], self.sorts[x.sort().name()]) == x)
            else:
                E.prove('%s: %s' % (what, n), at[n] is x if x is None or
                        isinstance(x, ClassV) else E.eq(at[n], x))
        E.prove('%s: nothing else' % what, sorted(at) == sorted(expected))

    @property
    def sorts(self):
        ts = (self.Points, self.Lines, self.NPD, self.HD, self.Planars,
              Reals, Any, self.PointT, self.LineT)
        return dict((t.sort().name(), t) for t in ts)

    def pmf(self, e):
        return lambda w, v: self.attrs(
            w, v, 'openquake.hazardlib.pmf.PMF', data=e)

    def mfd(self, m):
        E = self.E
        a = E.h(m).attrs
        if E.h(m).cls is self.cls['TGRMFD']:
            return lambda w, v: self.attrs(
                w, v, MFD + 'TruncatedGRMFD', bin_width=self.width, **dict(
                    (n, a[n]) for n in ('a_val', 'b_val', 'min_mag',
                                        'max_mag')))
        return lambda w, v: self.attrs(
            w, v, MFD + 'EvenlyDiscretizedMFD', min_mag=a['min_mag'],
            bin_width=a['bin_width'], occurrence_rates=self.rates.e)

    def line_of(self, text):
        return lambda w, v: self.attrs(
            w, v, GEO + 'Line', points=self.points(self.coordsf(text.e)))

    def edges(self, g):
        a = self.E.h(g).attrs
        snoc = self.Lines.rawsnoc
        first = snoc(self.Lines.nil, self.line(a['top_edge_wkt'].e))
        return snoc(self.E.cat(self.Lines, first, self.lines(
            self.int_edges.e)), self.line(a['bottom_edge_wkt'].e))

    def surface(self, s):
        E = self.E
        if isinstance(E.h(s), HList):
            return lambda w, v: self.attrs(
                w, v, GEO + 'MultiSurface',
                surfaces=self.planars(self.surfaces.e))
        a = E.h(s).attrs
        if 'wkt' in a:
            return lambda w, v: self.attrs(
                w, v, GEO + 'SimpleFaultSurface.from_fault_data',
                fault_trace=self.line_of(a['wkt']), dip=a['dip'],
                upper_seismogenic_depth=a['upper_seismo_depth'],
                lower_seismogenic_depth=a['lower_seismo_depth'],
                mesh_spacing=self.spacing)
        return lambda w, v: self.attrs(
            w, v, GEO + 'ComplexFaultSurface.from_fault_data',
            edges=self.edges(s), mesh_spacing=self.spacing)

    def converter(self):
        """a converter with any settings"""
        E = self.E
        self.width = E.const('width', TReal)
        self.disc = E.const('disc', TReal)
        self.time = E.const('time', TReal)
        c = E.call(E.lookup_path('source.NrmlHazardlibConverter'), [
            self.time, self.spacing, self.width, self.disc])
        if E.branch(self.time.e != 0):
            self.tom = lambda w, v: self.attrs(
                w, v, 'openquake.hazardlib.tom.PoissonTOM',
                time_span=self.time)
        else:
            self.tom = None
        return c


def t_convert(E, kind, dims):
    C = Conversion(E, dims)

    def run():
        conv = C.converter()
        c0 = snapshot(E, conv)
        rup = kind.endswith('RuptureModel')
        src = C.rupture(kind) if rup else C.source(kind)
        s0 = C.everything(src)
        a = E.h(src).attrs
        r, exc = attempt(E, lambda: E.call(conv, [src]))
        unchanged(E, 'the converter', conv, c0)
        s1 = C.everything(src)
        E.prove('the input has the same attributes',
                sorted(s0) == sorted(s1))
        for n in sorted(s0):
            E.prove('the input is unchanged: %s' % n,
                    s0[n] is s1[n] or E.eq(s0[n], s1[n]))
        known = C.knownf(a['mag_scale_rel'].e) \
            if 'mag_scale_rel' in a else T
        if exc is not None:
            E.prove('refused only for an unknown scaling relation',
                    z3.Not(known))
            check_error(E, exc, E.builtins['KeyError'], a)
            reach(E, 'end')
            return
        E.prove('unknown scaling relations are refused', known)
        if rup:
            C.attrs('rupture', r, SRC + 'rupture.Rupture',
                    mag=a['magnitude'], rake=a['rake'],
                    tectonic_region_type=None,
                    surface=C.surface(a['geometry']),
                    source_typology=ext_class(
                        E, SRC + kind.replace('RuptureModel', 'Source')),
                    hypocenter=lambda w, v: E.prove(w, E.z(
                        v, C.PointT) == C.point(E.z(
                            a['hypocenter'] if isinstance(
                                a['hypocenter'], Sym) else tuple(
                                    E.content(a['hypocenter'])), C.Tup))))
            reach(E, 'end')
            return
        exp = dict(source_id=a['id'], name=a['name'],
                   tectonic_region_type=a['trt'], mfd=C.mfd(a['mfd']),
                   temporal_occurrence_model=C.tom)
        cls = kind
        if 'mag_scale_rel' in a:
            exp.update(rupture_mesh_spacing=C.spacing,
                       magnitude_scaling_relationship=C.msrf(
                           a['mag_scale_rel'].e),
                       rupture_aspect_ratio=a['rupt_aspect_ratio'])
            g = E.h(a['geometry']).attrs
        if kind in ('PointSource', 'AreaSource', 'SimpleFaultSource'):
            exp.update(upper_seismogenic_depth=g['upper_seismo_depth'],
                       lower_seismogenic_depth=g['lower_seismo_depth'])
        if kind in ('PointSource', 'AreaSource'):
            exp.update(nodal_plane_distribution=C.pmf(C.npd(C.planes.e)),
                       hypocenter_distribution=C.pmf(C.hd(C.depths.e)))
        if 'rake' in a:
            exp['rake'] = a['rake']
        if kind == 'PointSource':
            exp['location'] = lambda w, v: C.attrs(
                w, v, GEO + 'Point', depth=0.0,
                longitude=Sym(TReal, C.xf(g['wkt'].e)),
                latitude=Sym(TReal, C.yf(g['wkt'].e)))
        elif kind == 'AreaSource':
            ring = C.ringf(g['wkt'].e)
            front = ring
            if E.branch(ring != C.Tups.nil):
                # a closed ring: the last point repeats the first
                front = E.unfold_last(C.Tups, ring)[0]
            exp.update(area_discretization=C.disc, polygon=lambda w, v:
                       C.attrs(w, v, GEO + 'Polygon',
                               points=C.points(front)))
        elif kind == 'SimpleFaultSource':
            exp.update(fault_trace=C.line_of(g['wkt']), dip=g['dip'])
        elif kind == 'ComplexFaultSource':
            exp['edges'] = C.edges(a['geometry'])
        else:
            cls = 'CharacteristicFaultSource'
            exp['surface'] = C.surface(a['surface'])
        C.attrs('source', r, SRC + cls, **exp)
        reach(E, 'end')
    return run


def check_error(E, exc, cls, a):
    E.prove('the same kind of error', E.h(exc.value).cls is cls)
    m = E.z(E.call(E.builtins['str'], [exc.value]), TStr) if False else \
        E.z(E.getattr(exc.value, 'message'), TStr)
    for n in ('id', 'name'):
        E.prove('the %s of the source is in the message' % n,
                z3.Contains(m, a[n].e))


def t_error(E, kind):
    """an error inside of the conversion is reported with the source"""
    C = Conversion(E, 2)
    own = E.make_class('OwnError', [EXC['Exception']], {}, 'geometry')

    def run():
        conv = C.converter()
        src = C.source(kind)
        a = E.h(src).attrs
        if 'surface' in a and not isinstance(E.h(a['surface']), HInst):
            reach(E, 'end')
            return
        cls = [own, EXC['ValueError'], EXC['KeyError'], EXC['TypeError'],
               EXC['RuntimeError'], EXC['AttributeError']][E.choose(6)]
        C.fault = E.mkexc(cls, (E.const('text', TStr),))
        r, exc = attempt(E, lambda: E.call(conv, [src]))
        C.fault = None
        E.prove('an error is reported', exc is not None)
        if exc is not None and E.h(exc.value).cls is EXC['KeyError'] and \
                cls is not EXC['KeyError']:
            # the scaling relation was looked up first and is unknown
            E.prove('refused for an unknown scaling relation', z3.Not(
                C.knownf(a['mag_scale_rel'].e)))
            cls = EXC['KeyError']
        check_error(E, exc, cls, a)
        reach(E, 'end')
    return run


TASKS = {
    'C24': [Task('update', t_update, ['source'],
                 covers=['accepted', 'refused']),
            Task('constructor', t_ctor, ['source'],
                 covers=['created', 'refused']),
            Task('filter_sources', t_filter, ['source'], covers=['end']),
            Task('update_num_ruptures', t_ruptures, ['source'],
                 covers=['end']),
            Task('order', t_lt, ['source'], covers=['end'])],
    'C25': [Task('area_to_point_sources of a %s distribution' % n,
                 lambda E, g=g: t_area(E, *g), ['source'], covers=['end'])
            for n, g in (('truncated', (True,)), ('discretized', (False,)),
                         ('discretized (integer rates)', (False, TInt)))] + [
            Task('the shares add up', t_shares, ['source'], covers=['end']),
            Task('split_fault_source', t_fault, ['source'], covers=['end']),
            Task('split_source', t_split, ['source'], covers=['end'])],
    'C26': [Task('gen_blocks, %s limit' % n, lambda E, r=r: t_gen_blocks(
        E, r), ['source'], covers=['end', 'refused'])
            for n, r in (('real', True), ('integer', False))] + [
            Task('block_splitter weighs every item once', t_weight_calls,
                 ['general'], covers=['end'])],
    'C27': [Task('parse_source_model', t_parse, ['source'],
                 covers=['accepted', 'refused']),
            Task('parse_source_model, no sources', t_parse_default,
                 ['source'], covers=['end']),
            Task('order', t_lt, ['source'], covers=['end']),
            Task('update', t_update, ['source'],
                 covers=['accepted', 'refused'])],
    'C28': [Task('%s, %d-dimensional points' % (k, d), lambda E, k=k, d=d:
                 t_convert(E, k, d), ['source'], covers=['end'])
            for k in ('PointSource', 'AreaSource', 'SimpleFaultSource',
                      'ComplexFaultSource', 'CharacteristicSource',
                      'SimpleFaultRuptureModel', 'ComplexFaultRuptureModel')
            for d in (2, 3)] + [
            Task('errors of %s' % k, lambda E, k=k: t_error(E, k),
                 ['source'], covers=['end'])
            for k in ('PointSource', 'AreaSource', 'SimpleFaultSource',
                      'ComplexFaultSource', 'CharacteristicSource')],
}
