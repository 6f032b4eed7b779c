from openquake.hazardlib._rec import Rec


class Mesh(object):
    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def __len__(self):
        return len(self.lons)


class Point(Rec):
    params = ('longitude', 'latitude', 'depth')
    optional = {'depth': 0.0}


class Line(Rec):
    params = ('points',)


class Polygon(Rec):
    params = ('points',)

    def discretize(self, mesh_spacing):
        n = 0
        lons, lats = [], []
        for p in self.points:       # any mesh will do
            lons += [p.longitude, p.longitude + mesh_spacing]
            lats += [p.latitude, p.latitude]
        return Mesh(lons, lats)


class NodalPlane(Rec):
    params = ('strike', 'dip', 'rake')


class _Surface(Rec):
    @classmethod
    def from_fault_data(cls, *args, **kw):
        return cls(*args, **kw)


class SimpleFaultSurface(_Surface):
    params = ('fault_trace', 'upper_seismogenic_depth',
              'lower_seismogenic_depth', 'dip', 'mesh_spacing')


class ComplexFaultSurface(_Surface):
    params = ('edges', 'mesh_spacing')


class PlanarSurface(Rec):
    params = ('mesh_spacing', 'strike', 'dip', 'top_left', 'top_right',
              'bottom_right', 'bottom_left')


class MultiSurface(Rec):
    params = ('surfaces',)
