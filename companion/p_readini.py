"""Job configuration: parameters, inputs, sites."""
import os
import shutil
import tempfile
from xml.sax.saxutils import escape

from openquake.commonlib import readini as C

import run

SECTIONS = ['general', 'input', 'x', 'site params', 'Output']
PLAIN = ['description', 'calculation_mode', 'random_seed', 'a', 'file',
         '_files', 'exposure_file_name', 'sites', 'maximum_distance',
         'sites_csv_x', 'export_dir', 'file_', 'profile', 'hazard.file']
FILES = ['exposure_file', 'site_model_file', 'a_file', '_file',
         'gsim_logic_tree_file', 'structural_vulnerability_file',
         'x_file_file', 'file_file']
VALUES = ['', '0', 'x y', 'event based', '1, 2', '/abs/x', 'a_file', 'a=b',
          'x.xml', 'PGA']
PATHS = ['x.xml', 'sub/x.xml', '../x.xml', '/abs/x.xml', './x', 'x y.xml',
         '/', '../../y.csv', 'x.xml', '~/x', '//x']
MODELS = ['b.xml', 'a.xml', '/abs/s.xml', 'sub/m.xml', 'a.xml', 'Z.xml',
          '10.xml', '9.xml']
NS = 'http://openquake.org/xmlns/nrml/0.4'


def tree(r):
    """(xml, models)"""
    out, want = [], []
    for lev in range(r.choice([0, 1, 1, 2, 3])):
        out.append('<logicTreeBranchingLevel>')
        for i in range(r.choice([1, 1, 2])):
            ut = r.choice(['sourceModel', 'sourceModel', 'maxMagGRRelative',
                           'bGRRelative', 'sourceModels', None])
            out.append('<logicTreeBranchSet branchSetID="bs%d%d"%s>' % (
                lev, i, '' if ut is None else
                ' uncertaintyType="%s"' % ut))
            for j in range(r.choice([0, 1, 2, 3, 8])):
                m = r.choice(MODELS)
                if ut == 'sourceModel':
                    want.append(m)
                out.append('<logicTreeBranch><uncertaintyModel>%s'
                           '</uncertaintyModel><uncertaintyWeight>1.0'
                           '</uncertaintyWeight></logicTreeBranch>' %
                           escape(m))
            out.append('</logicTreeBranchSet>')
        out.append('</logicTreeBranchingLevel>')
    return '<nrml xmlns="%s"><logicTree logicTreeID="lt">%s</logicTree>' \
        '</nrml>' % (NS, '\n'.join(out)), want


def within(base, p):
    return p if p.startswith('/') else os.path.join(base, p)


def C23(ctx):
    r = ctx.rng
    for _ in range(ctx.n(400, 3000)):
        if not ctx.time_left():
            break
        d = tempfile.mkdtemp()
        try:
            one(ctx, r, d)
        finally:
            shutil.rmtree(d)


def one(ctx, r, d):
    base = os.path.join(d, r.choice(['', 'job', 'a/b c']))
    if not os.path.isdir(base):
        os.makedirs(base)
    text, keys = [], {}
    params, inputs = {}, {}
    secs = r.sample(SECTIONS, r.choice([0, 1, 1, 2, 3]))
    smlt = sites = None
    for s in secs:
        text.append('[%s]' % s)
        for _ in range(r.choice([0, 1, 3, 6])):
            k = r.choice(PLAIN + FILES)
            if k in keys or (k == 'sites' and 'sites_csv' in keys):
                continue
            keys[k] = 1
            if k.endswith('_file'):
                v = r.choice(PATHS)
                inputs[k[:-5]] = within(base, v)
            else:
                v = params[k] = r.choice(VALUES)
            text.append('%s %s %s' % (k, r.choice(['=', ':']), v))
        if r.random() < .4 and smlt is None:
            v = r.choice(['lt.xml', 'sub/lt.xml', os.path.join(d, 'abs.xml')])
            p = inputs['source_model_logic_tree'] = within(base, v)
            xml, smlt = tree(r)
            write(p, xml)
            text.append('source_model_logic_tree_file = %s' % v)
        if r.random() < .3 and 'sites' not in keys and sites is None:
            v = r.choice(['s.csv', 'sub/s.csv', os.path.join(d, 's.csv')])
            sites = [(r.choice(['0', '-1.5', '179.9', '1e-3']),
                      r.choice(['0', '45.25', '-90']))
                     for _ in range(r.choice([0, 1, 2, 5]))]
            write(within(base, v), ''.join('%s,%s\n' % x for x in sites))
            text.append('sites_csv = %s' % v)
            keys['sites_csv'] = 1
            params['sites'] = 'MULTIPOINT(%s)' % ', '.join(
                '%s %s' % x for x in sites)
    if smlt is not None:
        inputs['source'] = [within(base, m) for m in sorted(set(smlt))]
    job = os.path.join(base, 'job.ini')
    write(job, '\n'.join(text) + '\n')
    inp = {'job.ini': text, 'source models': smlt}

    def parse():
        with open(job) as f:
            return C.parse_config(f)

    def kept():
        got = dict(parse())
        got.pop('inputs', None)
        got.pop('base_path', None)
        if got != params:
            return 'parameters %r, in the file %r' % (got, params)
    ctx.check('every parameter with its value', inp, kept)

    def files():
        got = parse()['inputs']
        if got != inputs:
            return 'inputs %r, in the file %r' % (got, inputs)
    ctx.check('every input with its path', inp, files)


def write(p, text):
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'w') as f:
        f.write(text)
