"""Risk loaders: vulnerability and fragility functions."""
from openquake.commonlib import riskloaders as C
from openquake.nrmllib.risk import parsers
from openquake.risklib import scientific

import run

LT = ['structural', 'nonstructural', 'fatalities', 'contents', 'occupants',
      '', 'business_interruption']
TAX = ['A', 'B', '', 'RC/DMRF-D/LR', 'a%s', 'W']
IMTS = ['PGA', 'SA(0.1)', 'MMI', '']


def cost(lt):
    return 'occupants' if lt == 'fatalities' else lt


def record(r, tax=None):
    n = r.choice([1, 1, 2, 3, 5])
    imls = sorted(r.sample([0., .1, .2, .3, .5, .8, 1., 2., 5.], n))
    return {'ID': r.choice(TAX) if tax is None else tax,
            'IMT': r.choice(IMTS), 'IML': imls,
            'lossRatio': [r.choice([0., .1, .5, 1.]) for _ in imls],
            'coefficientsVariation': [r.choice([0., .1, .3]) for _ in imls],
            'probabilisticDistribution': r.choice(['LN', 'BT'])}


def spoil(r, rec):
    k = r.choice(['neg', 'order', 'length'])
    rec = dict(rec)
    if k == 'neg':
        rec['lossRatio'] = rec['lossRatio'][:-1] + [-.5]
    elif k == 'order':
        rec['IML'] = [1.] * (len(rec['IML']) + 1)
        rec['lossRatio'] = rec['lossRatio'] + [.5]
    else:
        rec['lossRatio'] = rec['lossRatio'] + [.5]
    return rec


def impossible(rec):
    return run.raises(ValueError, scientific.VulnerabilityFunction,
                      rec['IMT'], rec['IML'], rec['lossRatio'],
                      rec['coefficientsVariation'],
                      rec['probabilisticDistribution']) is None


def offender(recs):
    seen = set()
    for rec in recs:
        if rec['ID'] in seen or impossible(rec):
            return rec['ID']
        seen.add(rec['ID'])


def same_vf(vf, rec):
    return (vf.imt == rec['IMT'] and vf.imls == rec['IML'] and
            vf.mean_loss_ratios == rec['lossRatio'] and
            vf.covs == rec['coefficientsVariation'] and
            vf.distribution_name == rec['probabilisticDistribution'])


def model(r, bad):
    taxs = r.sample(TAX, r.choice([0, 1, 1, 2, 3, 6]))
    recs = [record(r, t) for t in taxs]
    if bad and recs and r.random() < .5:
        i = r.randrange(len(recs))
        if r.random() < .5:
            recs[i] = spoil(r, recs[i])
        else:
            recs.insert(r.randrange(len(recs) + 1),
                        record(r, recs[i]['ID']))
    return recs


def C21(ctx):
    r = ctx.rng
    for _ in range(ctx.n(500, 4000)):
        if not ctx.time_left():
            break
        bad = r.random() < .25
        lts = [r.choice(LT) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
        if r.random() < .7:
            lts = sorted(set(lts), key=lts.index)
        models, inputs = {}, {'hazard': 'h', 'site_model': 'h'}
        for suffix in ('', '_retrofitted'):
            for lt in LT:
                if r.random() < .6:
                    f = 'f%d.xml' % len(models)
                    models[f] = model(r, bad)
                    inputs['%s_vulnerability%s' % (lt, suffix)] = f
        if r.random() < .2 and models:      # a shared file
            k = r.choice([x for x in inputs if 'vuln' in x])
            inputs[k] = r.choice(sorted(models))
        retro, ins = r.choice([True, False]), r.choice([True, False])
        parsers.VulnerabilityModelParser.models = models
        key = lambda lt: '%s_vulnerability%s' % (
            cost(lt), '_retrofitted' if retro else '')
        files = [models[inputs[key(lt)]] for lt in lts if key(lt) in inputs]
        bads = [o for o in map(offender, files) if o is not None]
        expected = {}
        for lt in lts:
            for rec in models.get(inputs.get(key(lt)), []):
                expected.setdefault(rec['ID'], {})[lt] = rec
        inp = {'inputs': inputs, 'models': models, 'loss_types': lts,
               'retrofitted': retro}

        def compare(got):
            if set(got) != set(expected):
                return 'taxonomies %s, expected %s' % (
                    sorted(got), sorted(expected))
            for t in got:
                if set(got[t]) != set(expected[t]):
                    return 'loss types of %r: %s, expected %s' % (
                        t, sorted(got[t]), sorted(expected[t]))
                for lt, vf in got[t].items():
                    if not same_vf(vf, expected[t][lt]):
                        return 'another function for %r, %r' % (t, lt)

        def pairs():
            out = {}
            for t, d in C.get_taxonomy_vfs(dict(inputs), list(lts), *([True] if retro else [])):
                if t in out:
                    return 'taxonomy %r twice' % t
                out[t] = d
            return compare(out)

        def risk_models():
            ms = C.get_risk_models(dict(inputs), list(lts), ins, *([True] if retro else []))
            for t, m in ms.items():
                if m.taxonomy != t:
                    return 'model of %r under %r' % (m.taxonomy, t)
                if m.workflow.insured_losses is not ins:
                    return 'insured losses %r instead of %r' % (
                        m.workflow.insured_losses, ins)
            return compare(dict((t, m.workflow.vulnerability_functions)
                                for t, m in ms.items()))

        def refused():
            for f in (lambda: list(C.get_taxonomy_vfs(
                          dict(inputs), list(lts), *([True] if retro else []))),
                      lambda: C.get_risk_models(
                          dict(inputs), list(lts), ins, *([True] if retro else []))):
                try:
                    f()
                except ValueError as e:
                    if bads[0] not in str(e):
                        return 'the error does not name %r: %s' % (
                            bads[0], e)
                else:
                    return 'no ValueError for %r' % bads[0]
        if bads:
            ctx.check('an offending file is refused', inp, refused)
        else:
            ctx.check('functions by taxonomy and loss type', inp, pairs)
            ctx.check('risk models', inp, risk_models)


def C22(ctx):
    r = ctx.rng
    for _ in range(ctx.n(800, 6000)):
        if not ctx.time_left():
            break
        fmt = r.choice(['discrete', 'continuous'])
        states = ['s%d' % i for i in range(r.choice([0, 1, 2, 3, 6]))]
        r.shuffle(states)
        items = []
        for t in r.sample(TAX, r.choice([0, 1, 2, 3, 6])):
            imls = sorted(r.sample([0., .05, .1, .2, .5, 1., 2.],
                                   r.choice([1, 2, 4])))
            if fmt == 'discrete':
                params = [[r.choice([0., .1, .4, .9, 1.]) for _ in imls]
                          for _ in states]
                lim = r.choice([None, None, 0., .01, .05, .1])
            else:
                params = [(r.choice([0., .2, 1., 3.]),
                           r.choice([0., .1, 2.])) for _ in states]
                lim = None
            items.append((t, {'IMT': r.choice(IMTS), 'imls': imls},
                          params, lim))
        inp = [(fmt, states)] + items

        def content():
            import copy
            return copy.deepcopy(inp)

        def test():
            ds, ms = C.get_damage_states_and_risk_models(content())
            if ds != ['no_damage'] + states:
                return 'damage states %s' % ds
            if set(ms) != set(i[0] for i in items):
                return 'taxonomies %s' % sorted(ms)
            for t, iml, params, lim in items:
                m = ms[t]
                if m.taxonomy != t:
                    return 'model of %r under %r' % (m.taxonomy, t)
                d = m.workflow.fragility_functions
                if list(d) != ['damage']:
                    return 'loss types %s' % list(d)
                ffs = d['damage']
                if ffs.imt != iml['IMT']:
                    return 'IMT %r of %r' % (ffs.imt, t)
                if len(ffs) != len(states):
                    return '%d functions of %r' % (len(ffs), t)
                for f, p in zip(ffs, params):
                    if fmt == 'continuous':
                        if type(f).__name__ != \
                                'FragilityFunctionContinuous' or \
                                (f.mean, f.stddev) != p:
                            return 'function %s instead of %s' % (
                                vars(f), p)
                        continue
                    exp = ((iml['imls'], p, iml['imls'][0])
                           if lim is None else
                           ([lim] + iml['imls'], [0.] + p, lim))
                    if (list(f.imls), list(f.poes), f.no_damage_limit) != \
                            exp:
                        return 'function %s instead of %s' % (vars(f), exp)
        ctx.check('functions state by state', inp, test)
