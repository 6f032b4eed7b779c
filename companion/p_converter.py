"""Models as records and back."""
from openquake.nrmllib.node import Node
from openquake.commonlib import converter, record, records as R

import run

IDS = ['a', 'b', 'PAGER', 'a b', '0', '1', '10', 'A', 'x__y', 'a,b',
       '\xc3\xa8', '%s', 'B1', 'B2', 'B3', 'B4', 'B5', 'B6', 'B7', 'B8']
WORDS = ['population', 'fatalities', 'MMI', 'PGA', '', '0', 'x y', 'LN']
NUMS = ['0', '0.0', '1', '.5', '0.30', '1e-3', '00.7', '1.0']


def canon(node):
    return (node.tag, sorted(node.attrib.items()),
            (node.text or '').split(), [canon(n) for n in node.nodes])


def same(got, want):
    g, w = canon(got), canon(want)
    return None if g == w else '%r, expected %r' % (g, w)


def rows(recs):
    return [(r.__class__.__name__, list(r.row)) for r in recs]


def levels(r):
    n = r.choice([1, 1, 2, 3, 12])
    return [r.choice(['%s', '%s.0', '0%s', '%s.10'])
            % x for x in sorted(r.sample(range(1, 40), n))]


def pad(r, words):
    if r.random() < .3:
        return '\n   ' + ' \n '.join(words) + '\n  '
    return ' '.join(words)


def both(ctx, clause, conv, build, want, back=None, many=None):
    """the records of the model, and the model made of them"""
    node = build()
    ctx.check(clause + ': records', want, lambda: None if rows(
        conv.node_to_records(node)) == want else '%r' % (
            rows(conv.node_to_records(node)),))
    ctx.check(clause + ': the model itself is not changed', want,
              lambda: same(node, build()))

    def again():
        c = converter.Converter.from_node(node)
        if type(c) is not conv:
            return 'converted by %r' % c
        return (back or same)(c.to_node(), build())
    ctx.check(clause + ': back', want, again)

    def tables():
        ts = record.TableSet(conv)
        ts.insert_all(conv.node_to_records(node))
        # each table on its own: the records in their order
        for t in conv.recordtypes():
            got = rows(getattr(ts, 'table' + t.__name__))
            if got != [x for x in want if x[0] == t.__name__]:
                return '%s: %r' % (t.__name__, got)
        return (back or same)(ts.to_node(), build())
    ctx.check(clause + ': back from tables', want, tables)


def C17(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        if not ctx.time_left():
            break
        model = []
        for sid in r.sample(IDS, r.choice([0, 1, 1, 2, 3, 11])):
            imls = levels(r)
            funs = [(fid, r.choice(WORDS), [r.choice(NUMS) for _ in imls],
                     [r.choice(NUMS) for _ in imls])
                    for fid in r.sample(IDS, r.choice([1, 1, 2, 3, 11]))]
            model.append((sid, r.choice(WORDS), r.choice(WORDS),
                          r.choice(WORDS), imls, funs))
        want = []
        for sid, cat, loss, imt, imls, funs in model:
            want.append(('DiscreteVulnerabilitySet', [sid, cat, loss, imt]))
            for fid, dist, ratios, covs in funs:
                want.append(('DiscreteVulnerability', [sid, fid, dist]))
                for i, iml in enumerate(imls):
                    want.append(('DiscreteVulnerabilityData', [
                        sid, fid, iml, ratios[i], covs[i]]))
        sep, sep2, sep3 = [r.choice([' ', '  ', '\n', ' \n\t'])
                           for _ in range(3)]

        def build():
            return Node('vulnerabilityModel', nodes=[
                Node('discreteVulnerabilitySet', dict(
                    vulnerabilitySetID=sid, assetCategory=cat,
                    lossCategory=loss), nodes=[
                    Node('IML', dict(IMT=imt), sep3.join(imls))] + [
                    Node('discreteVulnerability', dict(
                        vulnerabilityFunctionID=fid,
                        probabilisticDistribution=dist), nodes=[
                        Node('lossRatio', text=sep2.join(ratios)),
                        Node('coefficientsVariation',
                             text='\n %s ' % sep.join(covs))])
                    for fid, dist, ratios, covs in funs])
                for sid, cat, loss, imt, imls, funs in model])
        both(ctx, 'vulnerability', converter.Vulnerability, build, want)


def C18(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        if not ctx.time_left():
            break
        fragility(ctx, r, r.choice(['discrete', 'continuous']))


def fragility(ctx, r, fmt):
    disc = fmt == 'discrete'
    ls = r.sample(['minor', 'moderate', 'severe', 'collapse', 'x', '0',
                   'a_b'], r.choice([1, 1, 2, 4]))
    kind = 'Discrete' if disc else 'Continuous'
    desc = r.choice(['a model', '', 'x', 'Fragility for  test'])
    sets = []
    for i in range(r.choice([0, 1, 2, 3, 12])):
        iml = dict(IMT=r.choice(['PGA', 'MMI']), imlUnit=r.choice(
            ['g', 'm', '']))
        if not disc:
            iml.update(minIML=r.choice(NUMS), maxIML=r.choice(NUMS))
        imls = levels(r)
        att = {}
        if r.random() < .5:
            att['noDamageLimit'] = r.choice(['0.05', '1', '0.0', '0'])
        if not disc and r.random() < .5:
            att['type'] = r.choice(['lognormal', 'x'])
        funs = [[r.choice(NUMS) for _ in (imls if disc else 'xy')]
                for _ in ls]
        if disc:
            funs = [[r.choice(['0', '0.5', '1', '.25', '1.0', '0.50'])
                     for _ in f] for f in funs]
        sets.append((r.choice(['RC', 'RM', 'a b']), att, iml, imls, funs))
    want = [('Fragility' + kind, [fmt, desc, ' '.join(ls)])]
    want += [('FFLimitState' + kind, [s]) for s in ls]
    for i, (tax, att, iml, imls, funs) in enumerate(sets, 1):
        row = [str(i), tax, att.get('noDamageLimit', '')]
        if not disc:
            row.append(att.get('type', ''))
        row += [iml['IMT'], iml['imlUnit']]
        if not disc:
            row += [iml['minIML'], iml['maxIML']]
        want.append(('FFSet' + kind, row))
        for s, f in zip(ls, funs):
            for x, y in zip(imls if disc else ['mean', 'stddev'], f):
                want.append(('FFData' + kind, [s, str(i), x, y]))

    sep, sep2 = [r.choice([' ', '  ', '\n', ' \n\t']) for _ in range(2)]

    def fun(s, f):
        if disc:
            return Node('ffd', dict(ls=s), nodes=[
                Node('poEs', text='\n %s ' % sep.join(f))])
        return Node('ffc', dict(ls=s), nodes=[
            Node('params', dict(mean=f[0], stddev=f[1]))])

    def build():
        return Node('fragilityModel', dict(format=fmt), nodes=[
            Node('description', text='\n  %s  ' % desc),
            Node('limitStates', text='  %s\n' % ' '.join(ls))] + [
            Node('ffs', dict(att), nodes=[
                Node('taxonomy', text=' %s\n' % tax),
                Node('IML', dict(iml), sep2.join(imls) if disc else None)] + [
                fun(s, f) for s, f in zip(ls, funs)])
            for tax, att, iml, imls, funs in sets])
    both(ctx, 'fragility ' + fmt, getattr(converter, 'Fragility' + kind),
         build, want)


def C19(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        if not ctx.time_left():
            break
        exposure(ctx, r)


def maybe(r, d, p, name, choices):
    if r.random() < p:
        d[name] = r.choice(choices)


def exposure(ctx, r):
    houses = r.random() < .75
    category = 'buildings' if houses else r.choice(['population', 'x'])
    top = dict(id=r.choice(['ep', 'x']), category=category)
    maybe(r, top, .7, 'taxonomySource', ['PAGER', 'x'])
    desc = r.choice(['an exposure', 'x  y', ''])
    ctypes = []
    area = None
    flags = ('', '')
    if houses:
        flags = r.choice(['true', 'false', '0']), r.choice(['true', '1'])
        if r.random() < .7:
            area = dict(type='per_asset', unit=r.choice(['square meters',
                                                         'm']))
        for n in r.sample(['structural', 'contents', 'a', 'b', ''],
                          r.choice([0, 1, 2, 4])):
            c = dict(name=n, type=r.choice(['aggregated', 'per_area']),
                     unit=r.choice(['EUR', '']))
            maybe(r, c, .4, 'retrofittedType', ['per_asset'])
            maybe(r, c, .4, 'retrofittedUnit', ['EUR'])
            ctypes.append(c)
    assets = []
    places = [(r.choice(['9.1', '9.10', '0', '-9', '9']),
               r.choice(['45', '45.0', '9', '9.1']))
              for _ in range(r.choice([1, 2, 3, 14]))]
    if r.random() < .3:
        places = r.sample([('1', '12.5'), ('11', '2.5'), ('1', '1'),
                           ('2.5', '11'), ('11', '1'), ('1', '11'),
                           ('9.1', '9.1')], 4)
    elif len(places) > 3:
        places = [(str(i), str(j)) for i in range(4) for j in range(4)]
    for ref in r.sample(IDS, r.choice([0, 1, 2, 3, 14])):
        a = dict(id=ref, taxonomy=r.choice(['RC', 'RM']), number=r.choice(
            ['7', '1', '0.5', '0']))
        maybe(r, a, .4, 'area', ['120', '0'])
        costs = []
        for c in ctypes:
            if r.random() < .6:
                d = dict(type=c['name'], value=r.choice(NUMS))
                for k in 'retrofitted', 'deductible', 'insuranceLimit':
                    maybe(r, d, .3, k, ['1', '.5', '0'])
                costs.append(d)
        occs = []
        if r.random() < .6:
            occs = [dict(period=p, occupants=r.choice(['1', '20', '0']))
                    for p in r.sample(['day', 'night', 'transit', 'x', ''],
                                      r.choice([1, 1, 2, 3]))]
        assets.append((a, r.choice(places), costs, occs))
    want = [('CostType', [c['name'], c['type'], c['unit'], c.get(
        'retrofittedType', ''), c.get('retrofittedUnit', '')])
        for c in ctypes]
    want.append(('Exposure', [
        top['id'], category, top.get('taxonomySource', 'UNKNOWN'), desc,
        area['type'] if area else '', area['unit'] if area else '',
        flags[0], flags[1]]))
    known = {}
    for a, place, costs, occs in assets:
        for o in occs:
            want.append(('Occupancy', [a['id'], o['period'],
                                       o['occupants']]))
        for c in costs:
            want.append(('Cost', [a['id'], c['type'], c['value'], c.get(
                'retrofitted', ''), c.get('deductible', ''), c.get(
                    'insuranceLimit', '')]))
        if place not in known:
            known[place] = str(len(known) + 1)
            want.append(('Location', [known[place], place[0], place[1]]))
        want.append(('Asset', [known[place], a['id'], a['taxonomy'],
                               a['number'], a.get('area', '')]))

    def part(tag, name, dicts):
        return [Node(tag, nodes=[Node(name, dict(d)) for d in dicts])] \
            if dicts else []

    def build():
        nodes = [Node('description', text='\n %s ' % desc)]
        if houses:
            nodes.append(Node('conversions', nodes=(
                [Node('area', dict(area))] if area else []) + [
                Node('costTypes', nodes=[Node('costType', dict(c))
                                         for c in ctypes]),
                Node('deductible', dict(isAbsolute=flags[0])),
                Node('insuranceLimit', dict(isAbsolute=flags[1]))]))
        nodes.append(Node('assets', nodes=[Node('asset', dict(a), nodes=[
            Node('location', dict(lon=place[0], lat=place[1]))] + part(
                'costs', 'cost', costs) + part(
                    'occupancies', 'occupancy', occs))
            for a, place, costs, occs in assets]))
        return Node('exposureModel', dict(top), nodes=nodes)

    def back(got, _want):
        if got.tag != 'exposureModel' or got['id'] != top['id'] or \
                got['category'] != category or got['taxonomySource'] != \
                top.get('taxonomySource', 'UNKNOWN') or \
                got.description.text != desc:
            return '%r' % canon(Node(got.tag, got.attrib, nodes=[
                got.description]))
        if houses:
            types = [n.attrib for n in got.conversions.costTypes]
            if types != ctypes:
                return 'cost types %r' % types
            if area and got.conversions.area.attrib != area:
                return 'area %r' % got.conversions.area.attrib
            if (got.conversions.deductible['isAbsolute'],
                    got.conversions.insuranceLimit['isAbsolute']) != flags:
                return 'flags'
        nodes = list(got.assets)
        if len(nodes) != len(assets):
            return '%d assets' % len(nodes)
        for n, (a, place, costs, occs) in zip(nodes, assets):
            found = dict((x.tag, list(x.nodes)) for x in n)
            if len(found) != len(n.nodes):
                return 'repeated parts of %r' % a['id']
            if n.attrib != a:
                return '%r instead of %r' % (n.attrib, a)
            if n.location.attrib != dict(lon=place[0], lat=place[1]):
                return '%r: %r instead of %r' % (a['id'], n.location.attrib,
                                                 place)
            for tag, exp in (('costs', costs), ('occupancies', occs)):
                g = sorted(sorted(x.attrib.items()) for x in found.get(
                    tag, []))
                e = sorted(sorted(x.items()) for x in exp)
                if g != e:
                    return '%r: %s %r instead of %r' % (a['id'], tag, g, e)
    both(ctx, 'exposure', converter.Exposure, build, want, back)


def C20(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        if not ctx.time_left():
            break
        gmf(ctx, r, r.random() < .4)


def gmf(ctx, r, single):
    top = dict(sourceModelTreePath=r.choice(['b1_b2', '']),
               gsimTreePath=r.choice(['g1', '']))
    sets = []
    for ses in ['0'] if single else r.sample(
            [str(i) for i in range(1, 20)], r.choice([0, 1, 2, 3, 12])):
        keys, fields = set(), []
        for _ in range(r.choice([0, 1, 2, 3, 12]) or single):
            imt = r.choice(['PGA', 'PGV', 'SA', 'MMI', 'SA', 'IA'])
            att = dict(IMT=imt)
            if imt == 'SA':
                att.update(saPeriod=r.choice(['0.025', '1', '2.0', '0', '0.0251',
                                              '10.00001']),
                           saDamping='5')
            rup = '' if single else r.choice(['1', '2', '23', 'r'])
            if not single:
                att['ruptureId'] = rup
            key = imt, att.get('saPeriod'), rup
            if key in keys:
                continue
            keys.add(key)
            places = r.sample([(x, y) for x in ('0.0', '1.0', '0')
                               for y in ('0.0', '1', '1.0')],
                              r.choice([1, 1, 2, 3, 9]))
            fields.append((att, [dict(lon=x, lat=y, gmv=r.choice(NUMS))
                                 for x, y in places]))
        sets.append((ses, r.choice(['50', '1.0', '0']), fields))
    want = [] if single else [('GmfCollection', [
        top['sourceModelTreePath'], top['gsimTreePath']])]
    for ses, time, fields in sets:
        want.append(('GmfSet', [ses, '' if single else time]))
        for att, pts in fields:
            imt = 'SA(%s)' % att['saPeriod'] if att['IMT'] == 'SA' \
                else att['IMT']
            rup = att.get('ruptureId', '')
            want.append(('Gmf', [ses, imt, rup]))
            for d in pts:
                want.append(('GmfData', [ses, imt, rup, d['lon'], d['lat'],
                                         d['gmv']]))

    def build():
        out = [Node('gmfSet', {} if single else dict(
            stochasticEventSetId=ses, investigationTime=time), nodes=[
            Node('gmf', dict(att), nodes=[Node('node', dict(d))
                                          for d in pts])
            for att, pts in fields]) for ses, time, fields in sets]
        return out[0] if single else Node('gmfCollection', dict(top),
                                          nodes=out)
    both(ctx, 'set' if single else 'collection', converter.GmfCollection,
         build, want)
