"""Stand-in for shapely.wkt: points, lines and polygons."""


class Geometry(object):
    pass


def _coords(text):
    return [tuple(float(x) for x in c.split())
            for c in text.strip(' ()').split(',')]


def loads(text):
    kind, _, rest = text.partition('(')
    g = Geometry()
    kind = kind.strip().upper().split()[0]
    if kind == 'POINT':
        [c] = _coords(rest)
        g.x, g.y = c[:2]
        g.coords = [c]
    elif kind == 'LINESTRING':
        g.coords = _coords(rest)
    elif kind == 'POLYGON':
        g.exterior = Geometry()
        c = _coords(rest)
        # a ring is always closed
        g.exterior.coords = c if c[0] == c[-1] else c + [c[0]]
    else:
        raise ValueError('cannot parse %r' % text)
    return g
