class Rec(object):
    """keeps its parameters as attributes"""
    params = ()

    def __init__(self, *args, **kw):
        if len(args) > len(self.params):
            raise TypeError('%s() takes at most %d arguments' % (
                self.__class__.__name__, len(self.params)))
        d = dict(zip(self.params, args))
        for k, v in kw.items():
            if k in d or k not in self.params:
                raise TypeError('unexpected argument %s of %s' % (
                    k, self.__class__.__name__))
            d[k] = v
        missing = set(self.params) - set(d) - set(self.optional)
        if missing:
            raise TypeError('missing arguments %s of %s' % (
                sorted(missing), self.__class__.__name__))
        for k in self.optional:
            d.setdefault(k, self.optional[k])
        vars(self).update(d)
        self.check()

    optional = {}

    def check(self):
        pass

    def __eq__(self, other):
        return type(self) == type(other) and vars(self) == vars(other)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return '%s(%s)' % (self.__class__.__name__, ', '.join(
            '%s=%r' % i for i in sorted(vars(self).items())))
