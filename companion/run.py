"""Companion harness (runs under Jython): the executable form of the
specification against the real code.
usage: run.py PROPERTY SEED TIER MODELS OUT"""
import json
import os
import random
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

AREAS = {}
for _area, _ids in [
        ('p_general', 'C01 C02 C03 C04 C05 C06'),
        ('p_valid', 'C07 C08 C09'),
        ('p_record', 'C10 C11 C12 C13 C14'),
        ('p_csv', 'C15 C16 C41'),
        ('p_converter', 'C17 C18 C19 C20'),
        ('p_risk', 'C21 C22'),
        ('p_readini', 'C23'),
        ('p_source', 'C24 C25 C26 C27 C28'),
        ('p_logictree', 'C29 C30 C31 C32 C33 C34 C35'),
        ('p_parallel', 'C36 C37 C38 C39 C40')]:
    for _i in _ids.split():
        AREAS[_i] = _area


class Stop(Exception):
    pass


class Ctx(object):
    def __init__(self, prop, seed, tier, out):
        self.prop, self.seed, self.tier, self.out = prop, seed, tier, out
        self.rng = random.Random(seed)
        self.cases = 0
        self.seen = set()
        self.samples = []
        self.clauses = {}
        self.failures = []
        self.rule = ''
        self.t0 = time.time()
        self.budget = 120 if tier == 'thorough' else 25
        self.current = None
        t = threading.Thread(target=self.watch)
        t.setDaemon(True)
        t.start()

    def watch(self):
        """a case that does not end is a failing input"""
        while True:
            time.sleep(2)
            c = self.current
            if c and time.time() - c[2] > 45:
                try:
                    self.fail(c[0], c[1], 'no answer after 45 seconds', None)
                except Stop:
                    pass
                os._exit(0)

    def n(self, quick, thorough=None):
        if self.tier == 'thorough':
            return thorough or quick * 8
        return quick

    def time_left(self):
        return time.time() - self.t0 < self.budget

    def check(self, clause, inp, fn, key=None):
        """fn() returns None when the clause holds, else a description"""
        self.cases += 1
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        r = inp if isinstance(inp, str) else repr(inp)
        if len(r) > 2000:
            r = r[:2000] + '...'
        h = hash((clause, r))
        if h not in self.seen:
            self.seen.add(h)
            if len([s for s in self.samples if s['clause'] == clause]) < 1:
                self.samples.append({'clause': clause, 'input': r})
        self.current = (clause, r, time.time())
        try:
            bad = fn()
        except Stop:
            raise
        except Exception:
            bad = 'raised: ' + traceback.format_exc()[-1500:]
        self.current = None
        if bad:
            self.fail(clause, r, bad, key)

    def fail(self, clause, inp, bad, key=None):
        n = len([f for f in self.failures if f['clause'] == clause])
        if n < 4:
            self.failures.append({
                'clause': clause, 'input': inp, 'mismatch': str(bad)[:2000],
                'key': key})
            self.write()
        if len(self.failures) >= 12:
            raise Stop

    def write(self):
        d = {'cases': self.cases, 'distinct': len(self.seen),
             'rule': self.rule, 'samples': self.samples,
             'clauses': self.clauses, 'failures': self.failures}
        with open(self.out + '.tmp', 'w') as f:
            f.write(json.dumps(d, ensure_ascii=True, encoding='latin-1'))
        os.rename(self.out + '.tmp', self.out)


def raises(exc, fn, *args, **kw):
    """None if fn raises exactly an instance of exc, else a description"""
    try:
        r = fn(*args, **kw)
    except exc:
        return None
    except Exception as e:
        return 'raised %s(%s) instead of %s' % (
            e.__class__.__name__, e, exc.__name__)
    return 'returned %r instead of raising %s' % (r, exc.__name__)


def main():
    prop, seed, tier, models, out = sys.argv[1:6]
    ctx = Ctx(prop, int(seed), tier, out)
    sys.modules['run'] = sys.modules['__main__']
    mod = __import__(AREAS[prop])
    try:
        getattr(mod, prop)(ctx)
    except Stop:
        pass
    ctx.write()


if __name__ == '__main__':
    main()
    # threads of the code under test must not keep the interpreter alive
    sys.stdout.flush()
    os._exit(0)
